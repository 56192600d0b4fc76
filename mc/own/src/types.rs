// Written by tools/gen_own.py. Do not edit.
#![allow(clippy::all, unused, dead_code, non_camel_case_types)]
use std::collections::*;
use std::sync::Arc;

use mccore::model::*;
use oasis_cbor::{Decode, Encode, Value};
use mctyped::marked;
use oasis_cbor::DecodeError;
use mctyped::schema::*;
use mctyped::subj::*;

use mctyped::own::*;

pub fn ser_own<const K: u8>(x: &u8) -> Own<K> {
    Own(M::U(*x as u64))
}
pub fn de_own<const K: u8>(x: Own<K>) -> Result<u8, DecodeError> {
    match x.0 {
        M::U(n) if n < 60 => Ok(n as u8),
        _ => Err(DecodeError::UnexpectedIntegerSize),
    }
}
/// A number as a hand-written type.
pub fn coded<const K: u8>() -> Codec {
    Codec {
        wire: Ty::Own(K),
        enc: |d| match d {
            D::Int(n) => D::Val(M::U(*n as u64)),
            _ => panic!(),
        },
        dec: |d| match d {
            D::Val(M::U(n)) if *n < 60 => R::Ok(D::Int(*n as i128)),
            _ => R::Err(SIZE),
        },
    }
}
/// A hand-written type as a number.
pub fn ser_num<const K: u8>(x: &Own<K>) -> u8 {
    match &x.0 {
        M::U(n) => *n as u8,
        _ => 0,
    }
}
pub fn de_num<const K: u8>(x: u8) -> Result<Own<K>, DecodeError> {
    Ok(Own(M::U(x as u64)))
}
pub fn num() -> Codec {
    Codec {
        wire: Ty::Uint(8),
        enc: |d| match d {
            D::Val(M::U(n)) => D::Int(*n as u8 as i128),
            _ => D::Int(0),
        },
        dec: |d| match d {
            D::Int(n) => R::Ok(D::Val(M::U(*n as u64))),
            _ => panic!(),
        },
    }
}
pub fn seven(d: &D) -> bool {
    *d == D::Val(M::U(7))
}
#[derive(Encode, Decode)]
pub struct S_P0 { pub a: Own<0> }
impl Subj for S_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P0 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P0 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_P0 { pub a: Own<0>, pub b: u8 }
impl Subj for N_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_P0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_P0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_P0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P0 { pub a: Own<0>, pub b: u8 }
impl Subj for Y_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P0(pub Own<0>);
impl Subj for T_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P0(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P0(Subj::from_d(&v[0]))
    }
}
impl Default for T_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_P0(pub u8, pub Own<0>);
impl Subj for TT_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_P0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_P0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_P0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O0 { #[cbor(optional)] pub a: Own<0> }
impl Subj for S_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O0 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O0 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_O0 { #[cbor(optional)] pub a: Own<0>, pub b: u8 }
impl Subj for N_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_O0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_O0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_O0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O0 { #[cbor(optional)] pub a: Own<0>, pub b: u8 }
impl Subj for Y_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O0(#[cbor(optional)] pub Own<0>);
impl Subj for T_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O0(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O0(Subj::from_d(&v[0]))
    }
}
impl Default for T_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_O0(pub u8, #[cbor(optional)] pub Own<0>);
impl Subj for TT_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_O0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_O0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_O0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_L0 { #[cbor(optional)] pub a: Option<Own<0>> }
impl Subj for S_L0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<Own<0>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_L0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_L0 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_L0 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_L0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_L0 { #[cbor(optional)] pub a: Option<Own<0>>, pub b: u8 }
impl Subj for N_L0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<Own<0>> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_L0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_L0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_L0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_L0 { #[cbor(optional)] pub a: Option<Own<0>>, pub b: u8 }
impl Subj for Y_L0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<Own<0>> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_L0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_L0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_L0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_L0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_L0(#[cbor(optional)] pub Option<Own<0>>);
impl Subj for T_L0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<Own<0>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_L0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_L0(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_L0(Subj::from_d(&v[0]))
    }
}
impl Default for T_L0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_L0(pub u8, #[cbor(optional)] pub Option<Own<0>>);
impl Subj for TT_L0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <Option<Own<0>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_L0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_L0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_L0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_L0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P1 { pub a: Own<1> }
impl Subj for S_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P1 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P1 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_P1 { pub a: Own<1>, pub b: u8 }
impl Subj for N_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_P1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_P1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_P1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P1 { pub a: Own<1>, pub b: u8 }
impl Subj for Y_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P1(pub Own<1>);
impl Subj for T_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P1(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P1(Subj::from_d(&v[0]))
    }
}
impl Default for T_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_P1(pub u8, pub Own<1>);
impl Subj for TT_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_P1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_P1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_P1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O1 { #[cbor(optional)] pub a: Own<1> }
impl Subj for S_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O1 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O1 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_O1 { #[cbor(optional)] pub a: Own<1>, pub b: u8 }
impl Subj for N_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_O1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_O1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_O1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O1 { #[cbor(optional)] pub a: Own<1>, pub b: u8 }
impl Subj for Y_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O1(#[cbor(optional)] pub Own<1>);
impl Subj for T_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O1(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O1(Subj::from_d(&v[0]))
    }
}
impl Default for T_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_O1(pub u8, #[cbor(optional)] pub Own<1>);
impl Subj for TT_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_O1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_O1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_O1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_L1 { #[cbor(optional)] pub a: Option<Own<1>> }
impl Subj for S_L1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<Own<1>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_L1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_L1 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_L1 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_L1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_L1 { #[cbor(optional)] pub a: Option<Own<1>>, pub b: u8 }
impl Subj for N_L1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<Own<1>> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_L1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_L1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_L1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_L1 { #[cbor(optional)] pub a: Option<Own<1>>, pub b: u8 }
impl Subj for Y_L1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<Own<1>> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_L1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_L1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_L1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_L1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_L1(#[cbor(optional)] pub Option<Own<1>>);
impl Subj for T_L1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<Own<1>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_L1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_L1(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_L1(Subj::from_d(&v[0]))
    }
}
impl Default for T_L1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_L1(pub u8, #[cbor(optional)] pub Option<Own<1>>);
impl Subj for TT_L1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <Option<Own<1>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_L1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_L1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_L1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_L1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P2 { pub a: Own<2> }
impl Subj for S_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P2 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P2 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_P2 { pub a: Own<2>, pub b: u8 }
impl Subj for N_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_P2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_P2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_P2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P2 { pub a: Own<2>, pub b: u8 }
impl Subj for Y_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P2(pub Own<2>);
impl Subj for T_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P2(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P2(Subj::from_d(&v[0]))
    }
}
impl Default for T_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_P2(pub u8, pub Own<2>);
impl Subj for TT_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_P2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_P2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_P2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O2 { #[cbor(optional)] pub a: Own<2> }
impl Subj for S_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O2 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O2 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_O2 { #[cbor(optional)] pub a: Own<2>, pub b: u8 }
impl Subj for N_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_O2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_O2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_O2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O2 { #[cbor(optional)] pub a: Own<2>, pub b: u8 }
impl Subj for Y_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O2(#[cbor(optional)] pub Own<2>);
impl Subj for T_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O2(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O2(Subj::from_d(&v[0]))
    }
}
impl Default for T_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_O2(pub u8, #[cbor(optional)] pub Own<2>);
impl Subj for TT_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_O2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_O2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_O2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_L2 { #[cbor(optional)] pub a: Option<Own<2>> }
impl Subj for S_L2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<Own<2>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_L2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_L2 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_L2 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_L2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_L2 { #[cbor(optional)] pub a: Option<Own<2>>, pub b: u8 }
impl Subj for N_L2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<Own<2>> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_L2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_L2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_L2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_L2 { #[cbor(optional)] pub a: Option<Own<2>>, pub b: u8 }
impl Subj for Y_L2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<Own<2>> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_L2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_L2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_L2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_L2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_L2(#[cbor(optional)] pub Option<Own<2>>);
impl Subj for T_L2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<Own<2>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_L2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_L2(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_L2(Subj::from_d(&v[0]))
    }
}
impl Default for T_L2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_L2(pub u8, #[cbor(optional)] pub Option<Own<2>>);
impl Subj for TT_L2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <Option<Own<2>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_L2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_L2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_L2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_L2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P3 { pub a: Own<3> }
impl Subj for S_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P3 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P3 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_P3 { pub a: Own<3>, pub b: u8 }
impl Subj for N_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_P3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_P3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_P3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P3 { pub a: Own<3>, pub b: u8 }
impl Subj for Y_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P3(pub Own<3>);
impl Subj for T_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P3(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P3(Subj::from_d(&v[0]))
    }
}
impl Default for T_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_P3(pub u8, pub Own<3>);
impl Subj for TT_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_P3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_P3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_P3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O3 { #[cbor(optional)] pub a: Own<3> }
impl Subj for S_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O3 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O3 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_O3 { #[cbor(optional)] pub a: Own<3>, pub b: u8 }
impl Subj for N_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_O3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_O3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_O3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O3 { #[cbor(optional)] pub a: Own<3>, pub b: u8 }
impl Subj for Y_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O3(#[cbor(optional)] pub Own<3>);
impl Subj for T_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O3(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O3(Subj::from_d(&v[0]))
    }
}
impl Default for T_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_O3(pub u8, #[cbor(optional)] pub Own<3>);
impl Subj for TT_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_O3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_O3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_O3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_L3 { #[cbor(optional)] pub a: Option<Own<3>> }
impl Subj for S_L3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<Own<3>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_L3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_L3 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_L3 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_L3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_L3 { #[cbor(optional)] pub a: Option<Own<3>>, pub b: u8 }
impl Subj for N_L3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<Own<3>> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_L3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_L3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_L3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_L3 { #[cbor(optional)] pub a: Option<Own<3>>, pub b: u8 }
impl Subj for Y_L3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<Own<3>> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_L3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_L3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_L3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_L3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_L3(#[cbor(optional)] pub Option<Own<3>>);
impl Subj for T_L3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<Own<3>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_L3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_L3(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_L3(Subj::from_d(&v[0]))
    }
}
impl Default for T_L3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_L3(pub u8, #[cbor(optional)] pub Option<Own<3>>);
impl Subj for TT_L3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <Option<Own<3>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_L3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_L3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_L3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_L3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P4 { pub a: Own<4> }
impl Subj for S_P4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<4> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P4".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P4 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P4 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_P4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_P4 { pub a: Own<4>, pub b: u8 }
impl Subj for N_P4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<4> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_P4".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_P4 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_P4 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P4 { pub a: Own<4>, pub b: u8 }
impl Subj for Y_P4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<4> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P4".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P4 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P4 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P4(pub Own<4>);
impl Subj for T_P4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<4> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P4".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P4(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P4(Subj::from_d(&v[0]))
    }
}
impl Default for T_P4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_P4(pub u8, pub Own<4>);
impl Subj for TT_P4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <Own<4> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_P4".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_P4(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_P4(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_P4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O4 { #[cbor(optional)] pub a: Own<4> }
impl Subj for S_O4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<4> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O4".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O4 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O4 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_O4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_O4 { #[cbor(optional)] pub a: Own<4>, pub b: u8 }
impl Subj for N_O4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<4> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_O4".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_O4 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_O4 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O4 { #[cbor(optional)] pub a: Own<4>, pub b: u8 }
impl Subj for Y_O4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<4> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O4".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O4 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O4 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O4(#[cbor(optional)] pub Own<4>);
impl Subj for T_O4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<4> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O4".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O4(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O4(Subj::from_d(&v[0]))
    }
}
impl Default for T_O4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_O4(pub u8, #[cbor(optional)] pub Own<4>);
impl Subj for TT_O4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <Own<4> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_O4".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_O4(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_O4(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_O4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_L4 { #[cbor(optional)] pub a: Option<Own<4>> }
impl Subj for S_L4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<Own<4>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_L4".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_L4 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_L4 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_L4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_L4 { #[cbor(optional)] pub a: Option<Own<4>>, pub b: u8 }
impl Subj for N_L4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<Own<4>> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_L4".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_L4 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_L4 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_L4 { #[cbor(optional)] pub a: Option<Own<4>>, pub b: u8 }
impl Subj for Y_L4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Option<Own<4>> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_L4".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_L4 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_L4 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_L4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_L4(#[cbor(optional)] pub Option<Own<4>>);
impl Subj for T_L4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<Own<4>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_L4".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_L4(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_L4(Subj::from_d(&v[0]))
    }
}
impl Default for T_L4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_L4(pub u8, #[cbor(optional)] pub Option<Own<4>>);
impl Subj for TT_L4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <Option<Own<4>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_L4".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_L4(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_L4(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_L4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I0 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<0> }
impl Subj for S_I0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I0 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I0 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_I0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_I0 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<0>, pub b: u8 }
impl Subj for N_I0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_I0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_I0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_I0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
pub struct S_S0 { #[cbor(skip)] pub a: Own<0> }
impl Subj for S_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S0 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S0 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_S0 { #[cbor(skip)] pub a: Own<0>, pub b: u8 }
impl Subj for N_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).skipped(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_S0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_S0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_S0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S0 { #[cbor(skip)] pub a: Own<0>, pub b: u8 }
impl Subj for Y_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).skipped(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S0(#[cbor(skip)] pub Own<0>);
impl Subj for T_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S0(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S0(Subj::from_d(&v[0]))
    }
}
impl Default for T_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_S0(pub u8, #[cbor(skip)] pub Own<0>);
impl Subj for TT_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_S0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_S0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_S0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W0 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W0 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W0 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_W0 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8, pub b: u8 }
impl Subj for N_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_W0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_W0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_W0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_W0 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8, pub b: u8 }
impl Subj for Y_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_W0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_W0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_W0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_W0(#[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8);
impl Subj for T_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_W0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_W0(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_W0(Subj::from_d(&v[0]))
    }
}
impl Default for T_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_W0(pub u8, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8);
impl Subj for TT_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_W0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_W0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_W0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct TC_W0(#[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8);
impl Subj for TC_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TC_W0".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TC_W0(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TC_W0(Subj::from_d(&v[0]))
    }
}
impl Default for TC_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X0 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X0 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X0 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_X0 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8, pub b: u8 }
impl Subj for N_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_X0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_X0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_X0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X0 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8, pub b: u8 }
impl Subj for Y_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X0(#[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8);
impl Subj for T_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X0(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X0(Subj::from_d(&v[0]))
    }
}
impl Default for T_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_X0(pub u8, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8);
impl Subj for TT_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_X0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_X0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_X0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct TC_X0(#[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8);
impl Subj for TC_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TC_X0".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TC_X0(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TC_X0(Subj::from_d(&v[0]))
    }
}
impl Default for TC_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T0 { #[cbor(optional)] pub a: (Own<0>, u8) }
impl Subj for S_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T0 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T0 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_T0 { #[cbor(optional)] pub a: (Own<0>, u8), pub b: u8 }
impl Subj for N_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_T0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_T0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_T0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T0 { #[cbor(optional)] pub a: (Own<0>, u8), pub b: u8 }
impl Subj for Y_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T0(#[cbor(optional)] pub (Own<0>, u8));
impl Subj for T_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T0(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T0(Subj::from_d(&v[0]))
    }
}
impl Default for T_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_T0(pub u8, #[cbor(optional)] pub (Own<0>, u8));
impl Subj for TT_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_T0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_T0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_T0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_U0 { #[cbor(optional)] pub a: (Own<0>, Own<1>) }
impl Subj for S_U0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<0>, Own<1>) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_U0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_U0 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_U0 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_U0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_U0 { #[cbor(optional)] pub a: (Own<0>, Own<1>), pub b: u8 }
impl Subj for N_U0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<0>, Own<1>) as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_U0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_U0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_U0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_U0 { #[cbor(optional)] pub a: (Own<0>, Own<1>), pub b: u8 }
impl Subj for Y_U0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<0>, Own<1>) as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_U0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_U0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_U0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_U0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_U0(#[cbor(optional)] pub (Own<0>, Own<1>));
impl Subj for T_U0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<0>, Own<1>) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_U0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_U0(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_U0(Subj::from_d(&v[0]))
    }
}
impl Default for T_U0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_U0(pub u8, #[cbor(optional)] pub (Own<0>, Own<1>));
impl Subj for TT_U0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <(Own<0>, Own<1>) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_U0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_U0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_U0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_U0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_V0 { #[cbor(optional)] pub a: Vec<Own<0>> }
impl Subj for S_V0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Vec<Own<0>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_V0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_V0 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_V0 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_V0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_V0 { #[cbor(optional)] pub a: Vec<Own<0>>, pub b: u8 }
impl Subj for N_V0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Vec<Own<0>> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_V0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_V0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_V0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_V0 { #[cbor(optional)] pub a: Vec<Own<0>>, pub b: u8 }
impl Subj for Y_V0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Vec<Own<0>> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_V0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_V0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_V0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_V0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_V0(#[cbor(optional)] pub Vec<Own<0>>);
impl Subj for T_V0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<Own<0>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_V0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_V0(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_V0(Subj::from_d(&v[0]))
    }
}
impl Default for T_V0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_V0(pub u8, #[cbor(optional)] pub Vec<Own<0>>);
impl Subj for TT_V0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <Vec<Own<0>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_V0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_V0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_V0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_V0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_A0 { #[cbor(optional)] pub a: [Own<0>; 1] }
impl Subj for S_A0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <[Own<0>; 1] as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_A0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_A0 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_A0 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_A0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_A0 { #[cbor(optional)] pub a: [Own<0>; 1], pub b: u8 }
impl Subj for N_A0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <[Own<0>; 1] as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_A0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_A0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_A0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_A0 { #[cbor(optional)] pub a: [Own<0>; 1], pub b: u8 }
impl Subj for Y_A0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <[Own<0>; 1] as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_A0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_A0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_A0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_A0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_A0(#[cbor(optional)] pub [Own<0>; 1]);
impl Subj for T_A0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <[Own<0>; 1] as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_A0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_A0(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_A0(Subj::from_d(&v[0]))
    }
}
impl Default for T_A0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_A0(pub u8, #[cbor(optional)] pub [Own<0>; 1]);
impl Subj for TT_A0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <[Own<0>; 1] as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_A0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_A0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_A0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_A0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R0 { #[cbor(rename = 300)] pub a: Own<0> }
impl Subj for S_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R0 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R0 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_R0 { #[cbor(rename = 300)] pub a: Own<0>, pub b: u8 }
impl Subj for N_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_R0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_R0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_R0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_R0 { #[cbor(rename = 300)] pub a: Own<0>, pub b: u8 }
impl Subj for Y_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_R0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_R0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_R0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_R0(#[cbor(rename = 300)] pub Own<0>);
impl Subj for T_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_R0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_R0(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_R0(Subj::from_d(&v[0]))
    }
}
impl Default for T_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_R0(pub u8, #[cbor(rename = 300)] pub Own<0>);
impl Subj for TT_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_R0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_R0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_R0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I1 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<1> }
impl Subj for S_I1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I1 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I1 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_I1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_I1 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<1>, pub b: u8 }
impl Subj for N_I1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_I1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_I1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_I1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
pub struct S_S1 { #[cbor(skip)] pub a: Own<1> }
impl Subj for S_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S1 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S1 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_S1 { #[cbor(skip)] pub a: Own<1>, pub b: u8 }
impl Subj for N_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).skipped(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_S1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_S1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_S1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S1 { #[cbor(skip)] pub a: Own<1>, pub b: u8 }
impl Subj for Y_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).skipped(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S1(#[cbor(skip)] pub Own<1>);
impl Subj for T_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S1(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S1(Subj::from_d(&v[0]))
    }
}
impl Default for T_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_S1(pub u8, #[cbor(skip)] pub Own<1>);
impl Subj for TT_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_S1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_S1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_S1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W1 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W1 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W1 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_W1 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8, pub b: u8 }
impl Subj for N_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_W1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_W1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_W1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_W1 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8, pub b: u8 }
impl Subj for Y_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_W1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_W1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_W1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_W1(#[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8);
impl Subj for T_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_W1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_W1(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_W1(Subj::from_d(&v[0]))
    }
}
impl Default for T_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_W1(pub u8, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8);
impl Subj for TT_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_W1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_W1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_W1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct TC_W1(#[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8);
impl Subj for TC_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TC_W1".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TC_W1(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TC_W1(Subj::from_d(&v[0]))
    }
}
impl Default for TC_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X1 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X1 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X1 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_X1 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8, pub b: u8 }
impl Subj for N_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_X1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_X1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_X1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X1 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8, pub b: u8 }
impl Subj for Y_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X1(#[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8);
impl Subj for T_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X1(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X1(Subj::from_d(&v[0]))
    }
}
impl Default for T_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_X1(pub u8, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8);
impl Subj for TT_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_X1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_X1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_X1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct TC_X1(#[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8);
impl Subj for TC_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TC_X1".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TC_X1(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TC_X1(Subj::from_d(&v[0]))
    }
}
impl Default for TC_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T1 { #[cbor(optional)] pub a: (Own<1>, u8) }
impl Subj for S_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T1 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T1 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_T1 { #[cbor(optional)] pub a: (Own<1>, u8), pub b: u8 }
impl Subj for N_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_T1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_T1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_T1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T1 { #[cbor(optional)] pub a: (Own<1>, u8), pub b: u8 }
impl Subj for Y_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T1(#[cbor(optional)] pub (Own<1>, u8));
impl Subj for T_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T1(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T1(Subj::from_d(&v[0]))
    }
}
impl Default for T_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_T1(pub u8, #[cbor(optional)] pub (Own<1>, u8));
impl Subj for TT_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_T1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_T1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_T1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_U1 { #[cbor(optional)] pub a: (Own<1>, Own<1>) }
impl Subj for S_U1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<1>, Own<1>) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_U1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_U1 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_U1 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_U1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_U1 { #[cbor(optional)] pub a: (Own<1>, Own<1>), pub b: u8 }
impl Subj for N_U1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<1>, Own<1>) as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_U1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_U1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_U1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_U1 { #[cbor(optional)] pub a: (Own<1>, Own<1>), pub b: u8 }
impl Subj for Y_U1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<1>, Own<1>) as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_U1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_U1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_U1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_U1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_U1(#[cbor(optional)] pub (Own<1>, Own<1>));
impl Subj for T_U1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<1>, Own<1>) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_U1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_U1(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_U1(Subj::from_d(&v[0]))
    }
}
impl Default for T_U1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_U1(pub u8, #[cbor(optional)] pub (Own<1>, Own<1>));
impl Subj for TT_U1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <(Own<1>, Own<1>) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_U1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_U1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_U1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_U1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_V1 { #[cbor(optional)] pub a: Vec<Own<1>> }
impl Subj for S_V1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Vec<Own<1>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_V1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_V1 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_V1 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_V1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_V1 { #[cbor(optional)] pub a: Vec<Own<1>>, pub b: u8 }
impl Subj for N_V1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Vec<Own<1>> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_V1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_V1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_V1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_V1 { #[cbor(optional)] pub a: Vec<Own<1>>, pub b: u8 }
impl Subj for Y_V1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Vec<Own<1>> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_V1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_V1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_V1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_V1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_V1(#[cbor(optional)] pub Vec<Own<1>>);
impl Subj for T_V1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<Own<1>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_V1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_V1(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_V1(Subj::from_d(&v[0]))
    }
}
impl Default for T_V1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_V1(pub u8, #[cbor(optional)] pub Vec<Own<1>>);
impl Subj for TT_V1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <Vec<Own<1>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_V1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_V1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_V1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_V1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_A1 { #[cbor(optional)] pub a: [Own<1>; 1] }
impl Subj for S_A1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <[Own<1>; 1] as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_A1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_A1 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_A1 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_A1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_A1 { #[cbor(optional)] pub a: [Own<1>; 1], pub b: u8 }
impl Subj for N_A1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <[Own<1>; 1] as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_A1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_A1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_A1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_A1 { #[cbor(optional)] pub a: [Own<1>; 1], pub b: u8 }
impl Subj for Y_A1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <[Own<1>; 1] as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_A1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_A1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_A1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_A1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_A1(#[cbor(optional)] pub [Own<1>; 1]);
impl Subj for T_A1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <[Own<1>; 1] as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_A1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_A1(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_A1(Subj::from_d(&v[0]))
    }
}
impl Default for T_A1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_A1(pub u8, #[cbor(optional)] pub [Own<1>; 1]);
impl Subj for TT_A1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <[Own<1>; 1] as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_A1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_A1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_A1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_A1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R1 { #[cbor(rename = 301)] pub a: Own<1> }
impl Subj for S_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R1 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R1 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_R1 { #[cbor(rename = 301)] pub a: Own<1>, pub b: u8 }
impl Subj for N_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_R1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_R1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_R1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_R1 { #[cbor(rename = 301)] pub a: Own<1>, pub b: u8 }
impl Subj for Y_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_R1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_R1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_R1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_R1(#[cbor(rename = 301)] pub Own<1>);
impl Subj for T_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_R1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_R1(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_R1(Subj::from_d(&v[0]))
    }
}
impl Default for T_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_R1(pub u8, #[cbor(rename = 301)] pub Own<1>);
impl Subj for TT_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_R1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_R1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_R1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I2 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<2> }
impl Subj for S_I2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I2 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I2 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_I2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_I2 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<2>, pub b: u8 }
impl Subj for N_I2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_I2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_I2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_I2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
pub struct S_S2 { #[cbor(skip)] pub a: Own<2> }
impl Subj for S_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S2 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S2 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_S2 { #[cbor(skip)] pub a: Own<2>, pub b: u8 }
impl Subj for N_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).skipped(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_S2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_S2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_S2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S2 { #[cbor(skip)] pub a: Own<2>, pub b: u8 }
impl Subj for Y_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).skipped(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S2(#[cbor(skip)] pub Own<2>);
impl Subj for T_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S2(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S2(Subj::from_d(&v[0]))
    }
}
impl Default for T_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_S2(pub u8, #[cbor(skip)] pub Own<2>);
impl Subj for TT_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_S2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_S2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_S2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W2 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W2 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W2 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_W2 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8, pub b: u8 }
impl Subj for N_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_W2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_W2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_W2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_W2 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8, pub b: u8 }
impl Subj for Y_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_W2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_W2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_W2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_W2(#[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8);
impl Subj for T_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_W2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_W2(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_W2(Subj::from_d(&v[0]))
    }
}
impl Default for T_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_W2(pub u8, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8);
impl Subj for TT_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_W2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_W2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_W2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct TC_W2(#[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8);
impl Subj for TC_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TC_W2".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TC_W2(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TC_W2(Subj::from_d(&v[0]))
    }
}
impl Default for TC_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X2 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X2 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X2 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_X2 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8, pub b: u8 }
impl Subj for N_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_X2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_X2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_X2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X2 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8, pub b: u8 }
impl Subj for Y_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X2(#[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8);
impl Subj for T_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X2(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X2(Subj::from_d(&v[0]))
    }
}
impl Default for T_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_X2(pub u8, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8);
impl Subj for TT_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_X2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_X2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_X2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct TC_X2(#[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8);
impl Subj for TC_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TC_X2".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TC_X2(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TC_X2(Subj::from_d(&v[0]))
    }
}
impl Default for TC_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T2 { #[cbor(optional)] pub a: (Own<2>, u8) }
impl Subj for S_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T2 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T2 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_T2 { #[cbor(optional)] pub a: (Own<2>, u8), pub b: u8 }
impl Subj for N_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_T2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_T2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_T2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T2 { #[cbor(optional)] pub a: (Own<2>, u8), pub b: u8 }
impl Subj for Y_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T2(#[cbor(optional)] pub (Own<2>, u8));
impl Subj for T_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T2(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T2(Subj::from_d(&v[0]))
    }
}
impl Default for T_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_T2(pub u8, #[cbor(optional)] pub (Own<2>, u8));
impl Subj for TT_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_T2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_T2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_T2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_U2 { #[cbor(optional)] pub a: (Own<2>, Own<1>) }
impl Subj for S_U2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<2>, Own<1>) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_U2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_U2 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_U2 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_U2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_U2 { #[cbor(optional)] pub a: (Own<2>, Own<1>), pub b: u8 }
impl Subj for N_U2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<2>, Own<1>) as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_U2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_U2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_U2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_U2 { #[cbor(optional)] pub a: (Own<2>, Own<1>), pub b: u8 }
impl Subj for Y_U2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<2>, Own<1>) as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_U2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_U2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_U2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_U2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_U2(#[cbor(optional)] pub (Own<2>, Own<1>));
impl Subj for T_U2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<2>, Own<1>) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_U2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_U2(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_U2(Subj::from_d(&v[0]))
    }
}
impl Default for T_U2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_U2(pub u8, #[cbor(optional)] pub (Own<2>, Own<1>));
impl Subj for TT_U2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <(Own<2>, Own<1>) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_U2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_U2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_U2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_U2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_V2 { #[cbor(optional)] pub a: Vec<Own<2>> }
impl Subj for S_V2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Vec<Own<2>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_V2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_V2 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_V2 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_V2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_V2 { #[cbor(optional)] pub a: Vec<Own<2>>, pub b: u8 }
impl Subj for N_V2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Vec<Own<2>> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_V2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_V2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_V2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_V2 { #[cbor(optional)] pub a: Vec<Own<2>>, pub b: u8 }
impl Subj for Y_V2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Vec<Own<2>> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_V2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_V2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_V2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_V2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_V2(#[cbor(optional)] pub Vec<Own<2>>);
impl Subj for T_V2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<Own<2>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_V2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_V2(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_V2(Subj::from_d(&v[0]))
    }
}
impl Default for T_V2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_V2(pub u8, #[cbor(optional)] pub Vec<Own<2>>);
impl Subj for TT_V2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <Vec<Own<2>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_V2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_V2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_V2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_V2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_A2 { #[cbor(optional)] pub a: [Own<2>; 1] }
impl Subj for S_A2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <[Own<2>; 1] as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_A2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_A2 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_A2 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_A2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_A2 { #[cbor(optional)] pub a: [Own<2>; 1], pub b: u8 }
impl Subj for N_A2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <[Own<2>; 1] as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_A2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_A2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_A2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_A2 { #[cbor(optional)] pub a: [Own<2>; 1], pub b: u8 }
impl Subj for Y_A2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <[Own<2>; 1] as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_A2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_A2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_A2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_A2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_A2(#[cbor(optional)] pub [Own<2>; 1]);
impl Subj for T_A2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <[Own<2>; 1] as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_A2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_A2(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_A2(Subj::from_d(&v[0]))
    }
}
impl Default for T_A2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_A2(pub u8, #[cbor(optional)] pub [Own<2>; 1]);
impl Subj for TT_A2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <[Own<2>; 1] as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_A2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_A2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_A2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_A2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R2 { #[cbor(rename = 302)] pub a: Own<2> }
impl Subj for S_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R2 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R2 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_R2 { #[cbor(rename = 302)] pub a: Own<2>, pub b: u8 }
impl Subj for N_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_R2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_R2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_R2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_R2 { #[cbor(rename = 302)] pub a: Own<2>, pub b: u8 }
impl Subj for Y_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_R2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_R2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_R2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_R2(#[cbor(rename = 302)] pub Own<2>);
impl Subj for T_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_R2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_R2(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_R2(Subj::from_d(&v[0]))
    }
}
impl Default for T_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_R2(pub u8, #[cbor(rename = 302)] pub Own<2>);
impl Subj for TT_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_R2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_R2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_R2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I3 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<3> }
impl Subj for S_I3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I3 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I3 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_I3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_I3 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<3>, pub b: u8 }
impl Subj for N_I3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_I3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_I3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_I3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
pub struct S_S3 { #[cbor(skip)] pub a: Own<3> }
impl Subj for S_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S3 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S3 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_S3 { #[cbor(skip)] pub a: Own<3>, pub b: u8 }
impl Subj for N_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).skipped(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_S3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_S3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_S3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S3 { #[cbor(skip)] pub a: Own<3>, pub b: u8 }
impl Subj for Y_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).skipped(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S3(#[cbor(skip)] pub Own<3>);
impl Subj for T_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S3(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S3(Subj::from_d(&v[0]))
    }
}
impl Default for T_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_S3(pub u8, #[cbor(skip)] pub Own<3>);
impl Subj for TT_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_S3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_S3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_S3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W3 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W3 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W3 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_W3 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8, pub b: u8 }
impl Subj for N_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_W3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_W3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_W3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_W3 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8, pub b: u8 }
impl Subj for Y_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_W3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_W3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_W3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_W3(#[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8);
impl Subj for T_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_W3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_W3(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_W3(Subj::from_d(&v[0]))
    }
}
impl Default for T_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_W3(pub u8, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8);
impl Subj for TT_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_W3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_W3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_W3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct TC_W3(#[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8);
impl Subj for TC_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TC_W3".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TC_W3(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TC_W3(Subj::from_d(&v[0]))
    }
}
impl Default for TC_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X3 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X3 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X3 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_X3 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8, pub b: u8 }
impl Subj for N_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_X3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_X3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_X3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X3 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8, pub b: u8 }
impl Subj for Y_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X3(#[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8);
impl Subj for T_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X3(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X3(Subj::from_d(&v[0]))
    }
}
impl Default for T_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_X3(pub u8, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8);
impl Subj for TT_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_X3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_X3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_X3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct TC_X3(#[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8);
impl Subj for TC_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TC_X3".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TC_X3(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TC_X3(Subj::from_d(&v[0]))
    }
}
impl Default for TC_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T3 { #[cbor(optional)] pub a: (Own<3>, u8) }
impl Subj for S_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T3 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T3 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_T3 { #[cbor(optional)] pub a: (Own<3>, u8), pub b: u8 }
impl Subj for N_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_T3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_T3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_T3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T3 { #[cbor(optional)] pub a: (Own<3>, u8), pub b: u8 }
impl Subj for Y_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T3(#[cbor(optional)] pub (Own<3>, u8));
impl Subj for T_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T3(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T3(Subj::from_d(&v[0]))
    }
}
impl Default for T_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_T3(pub u8, #[cbor(optional)] pub (Own<3>, u8));
impl Subj for TT_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_T3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_T3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_T3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_U3 { #[cbor(optional)] pub a: (Own<3>, Own<1>) }
impl Subj for S_U3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<3>, Own<1>) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_U3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_U3 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_U3 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_U3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_U3 { #[cbor(optional)] pub a: (Own<3>, Own<1>), pub b: u8 }
impl Subj for N_U3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<3>, Own<1>) as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_U3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_U3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_U3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_U3 { #[cbor(optional)] pub a: (Own<3>, Own<1>), pub b: u8 }
impl Subj for Y_U3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<3>, Own<1>) as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_U3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_U3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_U3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_U3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_U3(#[cbor(optional)] pub (Own<3>, Own<1>));
impl Subj for T_U3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<3>, Own<1>) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_U3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_U3(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_U3(Subj::from_d(&v[0]))
    }
}
impl Default for T_U3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_U3(pub u8, #[cbor(optional)] pub (Own<3>, Own<1>));
impl Subj for TT_U3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <(Own<3>, Own<1>) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_U3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_U3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_U3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_U3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_V3 { #[cbor(optional)] pub a: Vec<Own<3>> }
impl Subj for S_V3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Vec<Own<3>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_V3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_V3 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_V3 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_V3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_V3 { #[cbor(optional)] pub a: Vec<Own<3>>, pub b: u8 }
impl Subj for N_V3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Vec<Own<3>> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_V3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_V3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_V3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_V3 { #[cbor(optional)] pub a: Vec<Own<3>>, pub b: u8 }
impl Subj for Y_V3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Vec<Own<3>> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_V3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_V3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_V3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_V3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_V3(#[cbor(optional)] pub Vec<Own<3>>);
impl Subj for T_V3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<Own<3>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_V3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_V3(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_V3(Subj::from_d(&v[0]))
    }
}
impl Default for T_V3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_V3(pub u8, #[cbor(optional)] pub Vec<Own<3>>);
impl Subj for TT_V3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <Vec<Own<3>> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_V3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_V3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_V3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_V3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_A3 { #[cbor(optional)] pub a: [Own<3>; 1] }
impl Subj for S_A3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <[Own<3>; 1] as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_A3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_A3 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_A3 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_A3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_A3 { #[cbor(optional)] pub a: [Own<3>; 1], pub b: u8 }
impl Subj for N_A3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <[Own<3>; 1] as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_A3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_A3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_A3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_A3 { #[cbor(optional)] pub a: [Own<3>; 1], pub b: u8 }
impl Subj for Y_A3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <[Own<3>; 1] as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_A3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_A3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_A3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_A3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_A3(#[cbor(optional)] pub [Own<3>; 1]);
impl Subj for T_A3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <[Own<3>; 1] as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_A3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_A3(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_A3(Subj::from_d(&v[0]))
    }
}
impl Default for T_A3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_A3(pub u8, #[cbor(optional)] pub [Own<3>; 1]);
impl Subj for TT_A3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <[Own<3>; 1] as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_A3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_A3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_A3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_A3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R3 { #[cbor(rename = 303)] pub a: Own<3> }
impl Subj for S_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R3 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R3 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_R3 { #[cbor(rename = 303)] pub a: Own<3>, pub b: u8 }
impl Subj for N_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_R3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_R3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_R3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_R3 { #[cbor(rename = 303)] pub a: Own<3>, pub b: u8 }
impl Subj for Y_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_R3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_R3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_R3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_R3(#[cbor(rename = 303)] pub Own<3>);
impl Subj for T_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_R3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_R3(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_R3(Subj::from_d(&v[0]))
    }
}
impl Default for T_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_R3(pub u8, #[cbor(rename = 303)] pub Own<3>);
impl Subj for TT_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_R3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_R3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_R3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_N1 { #[cbor(optional)] pub a: u8 }
impl Subj for S_N1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_N1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_N1 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_N1 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_N1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_N1 { #[cbor(optional)] pub a: u8, pub b: u8 }
impl Subj for N_N1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_N1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_N1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_N1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_N1 { #[cbor(optional)] pub a: u8, pub b: u8 }
impl Subj for Y_N1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_N1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_N1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_N1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_N1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_N1(#[cbor(optional)] pub u8);
impl Subj for T_N1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_N1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_N1(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_N1(Subj::from_d(&v[0]))
    }
}
impl Default for T_N1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_N1(pub u8, #[cbor(optional)] pub u8);
impl Subj for TT_N1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_N1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_N1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_N1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_N1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_N2 { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: Own<2> }
impl Subj for S_N2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_N2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_N2 { a: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_N2 { a: Subj::from_d(&v[0]) }
    }
}
impl Default for S_N2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default, allow_unknown)]
pub struct N_N2 { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: Own<2>, pub b: u8 }
impl Subj for N_N2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).coded(num()), fld(t("b"), <u8 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "N_N2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let N_N2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        N_N2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_N2 { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub a: Own<2>, pub b: u8 }
impl Subj for Y_N2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).coded(num()), fld(t("b"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_N2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_N2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_N2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_N2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_N2(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub Own<2>);
impl Subj for T_N2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_N2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_N2(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_N2(Subj::from_d(&v[0]))
    }
}
impl Default for T_N2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct TT_N2(pub u8, #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub Own<2>);
impl Subj for TT_N2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <Own<2> as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TT_N2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TT_N2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TT_N2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for TT_N2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct TC_N2(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] pub Own<2>);
impl Subj for TC_N2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()).coded(num())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "TC_N2".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let TC_N2(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        TC_N2(Subj::from_d(&v[0]))
    }
}
impl Default for TC_N2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P0_P0 { pub bb: Own<0>, pub a: Own<0> }
impl Subj for S_P0_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()), fld(t("a"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P0_P0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P0_P0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P0_P0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P0_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P0_P0 { pub a: Own<0>, pub b: Own<0> }
impl Subj for L_P0_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()), fld(t("b"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P0_P0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P0_P0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P0_P0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P0_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P0_P0(pub Own<0>, pub Own<0>);
impl Subj for T_P0_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()), fld(NULL, <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P0_P0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P0_P0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P0_P0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P0_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P0_P0 { pub y: Own<0>, pub x: Own<0> }
impl Subj for Y_P0_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<0> as Subj>::ty()), fld(t("x"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P0_P0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P0_P0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P0_P0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P0_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P0_P1 { pub bb: Own<0>, pub a: Own<1> }
impl Subj for S_P0_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()), fld(t("a"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P0_P1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P0_P1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P0_P1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P0_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P0_O1(pub Own<0>, #[cbor(optional)] pub Own<1>);
impl Subj for T_P0_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()), fld(NULL, <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P0_O1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P0_O1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P0_O1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P0_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P0_O1 { pub y: Own<0>, #[cbor(optional)] pub x: Own<1> }
impl Subj for Y_P0_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<0> as Subj>::ty()), fld(t("x"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P0_O1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P0_O1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P0_O1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P0_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P0_P2 { pub bb: Own<0>, pub a: Own<2> }
impl Subj for S_P0_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()), fld(t("a"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P0_P2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P0_P2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P0_P2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P0_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P0_P2 { pub a: Own<0>, pub b: Own<2> }
impl Subj for L_P0_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()), fld(t("b"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P0_P2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P0_P2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P0_P2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P0_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P0_P3 { pub bb: Own<0>, pub a: Own<3> }
impl Subj for S_P0_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()), fld(t("a"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P0_P3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P0_P3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P0_P3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P0_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P0_P3(pub Own<0>, pub Own<3>);
impl Subj for T_P0_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()), fld(NULL, <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P0_P3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P0_P3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P0_P3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P0_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P0_P3 { pub y: Own<0>, pub x: Own<3> }
impl Subj for Y_P0_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<0> as Subj>::ty()), fld(t("x"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P0_P3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P0_P3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P0_P3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P0_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P0_I0 { pub bb: Own<0>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<0> }
impl Subj for S_P0_I0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()), fld(t("a"), <Own<0> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P0_I0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P0_I0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P0_I0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P0_I0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P0_I0 { pub a: Own<0>, #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<0> }
impl Subj for L_P0_I0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()), fld(t("b"), <Own<0> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P0_I0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P0_I0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P0_I0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P0_I0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P0_S0(pub Own<0>, #[cbor(skip)] pub Own<0>);
impl Subj for T_P0_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()), fld(NULL, <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P0_S0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P0_S0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P0_S0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P0_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P0_S0 { pub y: Own<0>, #[cbor(skip)] pub x: Own<0> }
impl Subj for Y_P0_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<0> as Subj>::ty()), fld(t("x"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P0_S0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P0_S0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P0_S0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P0_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P0_W0 { pub bb: Own<0>, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_P0_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P0_W0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P0_W0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P0_W0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P0_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P0_T0 { pub bb: Own<0>, #[cbor(optional)] pub a: (Own<0>, u8) }
impl Subj for S_P0_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()), fld(t("a"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P0_T0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P0_T0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P0_T0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P0_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P0_T0 { pub a: Own<0>, #[cbor(optional)] pub b: (Own<0>, u8) }
impl Subj for L_P0_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()), fld(t("b"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P0_T0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P0_T0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P0_T0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P0_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P0_T0(pub Own<0>, #[cbor(optional)] pub (Own<0>, u8));
impl Subj for T_P0_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()), fld(NULL, <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P0_T0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P0_T0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P0_T0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P0_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P0_T0 { pub y: Own<0>, #[cbor(optional)] pub x: (Own<0>, u8) }
impl Subj for Y_P0_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<0> as Subj>::ty()), fld(t("x"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P0_T0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P0_T0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P0_T0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P0_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P0_I1 { pub bb: Own<0>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<1> }
impl Subj for S_P0_I1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()), fld(t("a"), <Own<1> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P0_I1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P0_I1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P0_I1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P0_I1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P0_S1(pub Own<0>, #[cbor(skip)] pub Own<1>);
impl Subj for T_P0_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()), fld(NULL, <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P0_S1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P0_S1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P0_S1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P0_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P0_S1 { pub y: Own<0>, #[cbor(skip)] pub x: Own<1> }
impl Subj for Y_P0_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<0> as Subj>::ty()), fld(t("x"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P0_S1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P0_S1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P0_S1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P0_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P0_W1 { pub bb: Own<0>, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_P0_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P0_W1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P0_W1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P0_W1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P0_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P0_W1 { pub a: Own<0>, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub b: u8 }
impl Subj for L_P0_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P0_W1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P0_W1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P0_W1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P0_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P0_T1 { pub bb: Own<0>, #[cbor(optional)] pub a: (Own<1>, u8) }
impl Subj for S_P0_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()), fld(t("a"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P0_T1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P0_T1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P0_T1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P0_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P0_T1(pub Own<0>, #[cbor(optional)] pub (Own<1>, u8));
impl Subj for T_P0_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()), fld(NULL, <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P0_T1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P0_T1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P0_T1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P0_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P0_T1 { pub y: Own<0>, #[cbor(optional)] pub x: (Own<1>, u8) }
impl Subj for Y_P0_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<0> as Subj>::ty()), fld(t("x"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P0_T1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P0_T1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P0_T1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P0_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P0_I2 { pub bb: Own<0>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<2> }
impl Subj for S_P0_I2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()), fld(t("a"), <Own<2> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P0_I2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P0_I2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P0_I2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P0_I2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P0_I2 { pub a: Own<0>, #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<2> }
impl Subj for L_P0_I2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()), fld(t("b"), <Own<2> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P0_I2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P0_I2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P0_I2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P0_I2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P0_S2(pub Own<0>, #[cbor(skip)] pub Own<2>);
impl Subj for T_P0_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()), fld(NULL, <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P0_S2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P0_S2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P0_S2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P0_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P0_S2 { pub y: Own<0>, #[cbor(skip)] pub x: Own<2> }
impl Subj for Y_P0_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<0> as Subj>::ty()), fld(t("x"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P0_S2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P0_S2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P0_S2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P0_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P0_W2 { pub bb: Own<0>, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_P0_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P0_W2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P0_W2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P0_W2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P0_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P0_T2 { pub bb: Own<0>, #[cbor(optional)] pub a: (Own<2>, u8) }
impl Subj for S_P0_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()), fld(t("a"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P0_T2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P0_T2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P0_T2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P0_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P0_T2 { pub a: Own<0>, #[cbor(optional)] pub b: (Own<2>, u8) }
impl Subj for L_P0_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()), fld(t("b"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P0_T2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P0_T2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P0_T2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P0_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P0_T2(pub Own<0>, #[cbor(optional)] pub (Own<2>, u8));
impl Subj for T_P0_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()), fld(NULL, <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P0_T2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P0_T2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P0_T2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P0_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P0_T2 { pub y: Own<0>, #[cbor(optional)] pub x: (Own<2>, u8) }
impl Subj for Y_P0_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<0> as Subj>::ty()), fld(t("x"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P0_T2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P0_T2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P0_T2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P0_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P0_I3 { pub bb: Own<0>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<3> }
impl Subj for S_P0_I3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()), fld(t("a"), <Own<3> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P0_I3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P0_I3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P0_I3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P0_I3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P0_S3(pub Own<0>, #[cbor(skip)] pub Own<3>);
impl Subj for T_P0_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()), fld(NULL, <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P0_S3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P0_S3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P0_S3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P0_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P0_S3 { pub y: Own<0>, #[cbor(skip)] pub x: Own<3> }
impl Subj for Y_P0_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<0> as Subj>::ty()), fld(t("x"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P0_S3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P0_S3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P0_S3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P0_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P0_W3 { pub bb: Own<0>, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_P0_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P0_W3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P0_W3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P0_W3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P0_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P0_W3 { pub a: Own<0>, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub b: u8 }
impl Subj for L_P0_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P0_W3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P0_W3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P0_W3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P0_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P0_T3 { pub bb: Own<0>, #[cbor(optional)] pub a: (Own<3>, u8) }
impl Subj for S_P0_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()), fld(t("a"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P0_T3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P0_T3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P0_T3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P0_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P0_T3(pub Own<0>, #[cbor(optional)] pub (Own<3>, u8));
impl Subj for T_P0_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()), fld(NULL, <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P0_T3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P0_T3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P0_T3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P0_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P0_T3 { pub y: Own<0>, #[cbor(optional)] pub x: (Own<3>, u8) }
impl Subj for Y_P0_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<0> as Subj>::ty()), fld(t("x"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P0_T3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P0_T3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P0_T3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P0_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O0_O0 { #[cbor(optional)] pub bb: Own<0>, #[cbor(optional)] pub a: Own<0> }
impl Subj for S_O0_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt(), fld(t("a"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O0_O0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O0_O0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O0_O0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O0_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O0_P1(#[cbor(optional)] pub Own<0>, pub Own<1>);
impl Subj for T_O0_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()).opt(), fld(NULL, <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O0_P1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O0_P1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O0_P1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O0_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O0_P1 { #[cbor(optional)] pub y: Own<0>, pub x: Own<1> }
impl Subj for Y_O0_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<0> as Subj>::ty()).opt(), fld(t("x"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O0_P1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O0_P1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O0_P1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O0_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O0_O1 { #[cbor(optional)] pub bb: Own<0>, #[cbor(optional)] pub a: Own<1> }
impl Subj for S_O0_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt(), fld(t("a"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O0_O1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O0_O1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O0_O1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O0_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O0_O1 { #[cbor(optional)] pub a: Own<0>, #[cbor(optional)] pub b: Own<1> }
impl Subj for L_O0_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).opt(), fld(t("b"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O0_O1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O0_O1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O0_O1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O0_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O0_O2 { #[cbor(optional)] pub bb: Own<0>, #[cbor(optional)] pub a: Own<2> }
impl Subj for S_O0_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt(), fld(t("a"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O0_O2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O0_O2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O0_O2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O0_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O0_O2(#[cbor(optional)] pub Own<0>, #[cbor(optional)] pub Own<2>);
impl Subj for T_O0_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()).opt(), fld(NULL, <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O0_O2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O0_O2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O0_O2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O0_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O0_O2 { #[cbor(optional)] pub y: Own<0>, #[cbor(optional)] pub x: Own<2> }
impl Subj for Y_O0_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<0> as Subj>::ty()).opt(), fld(t("x"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O0_O2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O0_O2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O0_O2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O0_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O0_O3 { #[cbor(optional)] pub bb: Own<0>, #[cbor(optional)] pub a: Own<3> }
impl Subj for S_O0_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt(), fld(t("a"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O0_O3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O0_O3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O0_O3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O0_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O0_O3 { #[cbor(optional)] pub a: Own<0>, #[cbor(optional)] pub b: Own<3> }
impl Subj for L_O0_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).opt(), fld(t("b"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O0_O3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O0_O3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O0_O3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O0_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O0_S0 { #[cbor(optional)] pub bb: Own<0>, #[cbor(skip)] pub a: Own<0> }
impl Subj for S_O0_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt(), fld(t("a"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O0_S0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O0_S0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O0_S0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O0_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O0_X0 { #[cbor(optional)] pub bb: Own<0>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_O0_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O0_X0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O0_X0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O0_X0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O0_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O0_X0 { #[cbor(optional)] pub a: Own<0>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub b: u8 }
impl Subj for L_O0_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O0_X0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O0_X0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O0_X0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O0_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O0_X0(#[cbor(optional)] pub Own<0>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8);
impl Subj for T_O0_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O0_X0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O0_X0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O0_X0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O0_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O0_X0 { #[cbor(optional)] pub y: Own<0>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub x: u8 }
impl Subj for Y_O0_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<0> as Subj>::ty()).opt(), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O0_X0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O0_X0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O0_X0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O0_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O0_R0 { #[cbor(optional)] pub bb: Own<0>, #[cbor(rename = 300)] pub a: Own<0> }
impl Subj for S_O0_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt(), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O0_R0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O0_R0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O0_R0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O0_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O0_S1 { #[cbor(optional)] pub bb: Own<0>, #[cbor(skip)] pub a: Own<1> }
impl Subj for S_O0_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt(), fld(t("a"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O0_S1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O0_S1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O0_S1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O0_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O0_S1 { #[cbor(optional)] pub a: Own<0>, #[cbor(skip)] pub b: Own<1> }
impl Subj for L_O0_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).opt(), fld(t("b"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O0_S1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O0_S1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O0_S1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O0_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O0_X1 { #[cbor(optional)] pub bb: Own<0>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_O0_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O0_X1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O0_X1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O0_X1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O0_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O0_X1(#[cbor(optional)] pub Own<0>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8);
impl Subj for T_O0_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O0_X1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O0_X1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O0_X1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O0_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O0_X1 { #[cbor(optional)] pub y: Own<0>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub x: u8 }
impl Subj for Y_O0_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<0> as Subj>::ty()).opt(), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O0_X1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O0_X1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O0_X1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O0_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O0_R1 { #[cbor(optional)] pub bb: Own<0>, #[cbor(rename = 301)] pub a: Own<1> }
impl Subj for S_O0_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt(), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O0_R1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O0_R1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O0_R1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O0_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O0_R1 { #[cbor(optional)] pub a: Own<0>, #[cbor(rename = 301)] pub b: Own<1> }
impl Subj for L_O0_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).opt(), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O0_R1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O0_R1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O0_R1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O0_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O0_S2 { #[cbor(optional)] pub bb: Own<0>, #[cbor(skip)] pub a: Own<2> }
impl Subj for S_O0_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt(), fld(t("a"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O0_S2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O0_S2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O0_S2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O0_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O0_X2 { #[cbor(optional)] pub bb: Own<0>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_O0_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O0_X2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O0_X2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O0_X2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O0_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O0_X2 { #[cbor(optional)] pub a: Own<0>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub b: u8 }
impl Subj for L_O0_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O0_X2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O0_X2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O0_X2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O0_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O0_X2(#[cbor(optional)] pub Own<0>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8);
impl Subj for T_O0_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O0_X2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O0_X2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O0_X2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O0_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O0_X2 { #[cbor(optional)] pub y: Own<0>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub x: u8 }
impl Subj for Y_O0_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<0> as Subj>::ty()).opt(), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O0_X2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O0_X2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O0_X2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O0_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O0_R2 { #[cbor(optional)] pub bb: Own<0>, #[cbor(rename = 302)] pub a: Own<2> }
impl Subj for S_O0_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt(), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O0_R2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O0_R2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O0_R2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O0_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O0_S3 { #[cbor(optional)] pub bb: Own<0>, #[cbor(skip)] pub a: Own<3> }
impl Subj for S_O0_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt(), fld(t("a"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O0_S3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O0_S3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O0_S3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O0_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O0_S3 { #[cbor(optional)] pub a: Own<0>, #[cbor(skip)] pub b: Own<3> }
impl Subj for L_O0_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).opt(), fld(t("b"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O0_S3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O0_S3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O0_S3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O0_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O0_X3 { #[cbor(optional)] pub bb: Own<0>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_O0_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O0_X3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O0_X3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O0_X3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O0_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O0_X3(#[cbor(optional)] pub Own<0>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8);
impl Subj for T_O0_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O0_X3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O0_X3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O0_X3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O0_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O0_X3 { #[cbor(optional)] pub y: Own<0>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub x: u8 }
impl Subj for Y_O0_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<0> as Subj>::ty()).opt(), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O0_X3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O0_X3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O0_X3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O0_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O0_R3 { #[cbor(optional)] pub bb: Own<0>, #[cbor(rename = 303)] pub a: Own<3> }
impl Subj for S_O0_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt(), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O0_R3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O0_R3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O0_R3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O0_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O0_R3 { #[cbor(optional)] pub a: Own<0>, #[cbor(rename = 303)] pub b: Own<3> }
impl Subj for L_O0_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).opt(), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O0_R3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O0_R3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O0_R3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O0_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P1_P0 { pub bb: Own<1>, pub a: Own<0> }
impl Subj for S_P1_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()), fld(t("a"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P1_P0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P1_P0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P1_P0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P1_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P1_O0(pub Own<1>, #[cbor(optional)] pub Own<0>);
impl Subj for T_P1_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()), fld(NULL, <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P1_O0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P1_O0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P1_O0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P1_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P1_O0 { pub y: Own<1>, #[cbor(optional)] pub x: Own<0> }
impl Subj for Y_P1_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()), fld(t("x"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P1_O0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P1_O0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P1_O0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P1_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P1_P1 { pub bb: Own<1>, pub a: Own<1> }
impl Subj for S_P1_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()), fld(t("a"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P1_P1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P1_P1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P1_P1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P1_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P1_P1 { pub a: Own<1>, pub b: Own<1> }
impl Subj for L_P1_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()), fld(t("b"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P1_P1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P1_P1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P1_P1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P1_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P1_P2 { pub bb: Own<1>, pub a: Own<2> }
impl Subj for S_P1_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()), fld(t("a"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P1_P2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P1_P2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P1_P2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P1_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P1_P2(pub Own<1>, pub Own<2>);
impl Subj for T_P1_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()), fld(NULL, <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P1_P2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P1_P2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P1_P2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P1_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P1_P2 { pub y: Own<1>, pub x: Own<2> }
impl Subj for Y_P1_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()), fld(t("x"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P1_P2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P1_P2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P1_P2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P1_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P1_P3 { pub bb: Own<1>, pub a: Own<3> }
impl Subj for S_P1_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()), fld(t("a"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P1_P3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P1_P3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P1_P3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P1_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P1_P3 { pub a: Own<1>, pub b: Own<3> }
impl Subj for L_P1_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()), fld(t("b"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P1_P3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P1_P3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P1_P3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P1_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P1_O3(pub Own<1>, #[cbor(optional)] pub Own<3>);
impl Subj for T_P1_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()), fld(NULL, <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P1_O3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P1_O3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P1_O3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P1_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P1_O3 { pub y: Own<1>, #[cbor(optional)] pub x: Own<3> }
impl Subj for Y_P1_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()), fld(t("x"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P1_O3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P1_O3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P1_O3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P1_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P1_I0 { pub bb: Own<1>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<0> }
impl Subj for S_P1_I0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()), fld(t("a"), <Own<0> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P1_I0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P1_I0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P1_I0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P1_I0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P1_W0 { pub bb: Own<1>, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_P1_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P1_W0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P1_W0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P1_W0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P1_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P1_W0 { pub a: Own<1>, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub b: u8 }
impl Subj for L_P1_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P1_W0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P1_W0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P1_W0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P1_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P1_W0(pub Own<1>, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8);
impl Subj for T_P1_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P1_W0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P1_W0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P1_W0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P1_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P1_W0 { pub y: Own<1>, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub x: u8 }
impl Subj for Y_P1_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P1_W0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P1_W0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P1_W0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P1_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P1_T0 { pub bb: Own<1>, #[cbor(optional)] pub a: (Own<0>, u8) }
impl Subj for S_P1_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()), fld(t("a"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P1_T0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P1_T0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P1_T0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P1_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P1_R0(pub Own<1>, #[cbor(rename = 300)] pub Own<0>);
impl Subj for T_P1_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P1_R0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P1_R0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P1_R0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P1_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P1_R0 { pub y: Own<1>, #[cbor(rename = 300)] pub x: Own<0> }
impl Subj for Y_P1_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P1_R0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P1_R0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P1_R0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P1_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P1_I1 { pub bb: Own<1>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<1> }
impl Subj for S_P1_I1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()), fld(t("a"), <Own<1> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P1_I1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P1_I1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P1_I1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P1_I1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P1_I1 { pub a: Own<1>, #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<1> }
impl Subj for L_P1_I1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()), fld(t("b"), <Own<1> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P1_I1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P1_I1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P1_I1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P1_I1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P1_W1 { pub bb: Own<1>, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_P1_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P1_W1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P1_W1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P1_W1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P1_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P1_W1(pub Own<1>, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8);
impl Subj for T_P1_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P1_W1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P1_W1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P1_W1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P1_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P1_W1 { pub y: Own<1>, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub x: u8 }
impl Subj for Y_P1_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P1_W1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P1_W1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P1_W1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P1_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P1_T1 { pub bb: Own<1>, #[cbor(optional)] pub a: (Own<1>, u8) }
impl Subj for S_P1_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()), fld(t("a"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P1_T1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P1_T1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P1_T1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P1_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P1_T1 { pub a: Own<1>, #[cbor(optional)] pub b: (Own<1>, u8) }
impl Subj for L_P1_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()), fld(t("b"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P1_T1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P1_T1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P1_T1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P1_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P1_R1(pub Own<1>, #[cbor(rename = 301)] pub Own<1>);
impl Subj for T_P1_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P1_R1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P1_R1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P1_R1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P1_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P1_R1 { pub y: Own<1>, #[cbor(rename = 301)] pub x: Own<1> }
impl Subj for Y_P1_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P1_R1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P1_R1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P1_R1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P1_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P1_I2 { pub bb: Own<1>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<2> }
impl Subj for S_P1_I2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()), fld(t("a"), <Own<2> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P1_I2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P1_I2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P1_I2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P1_I2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P1_W2 { pub bb: Own<1>, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_P1_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P1_W2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P1_W2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P1_W2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P1_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P1_W2 { pub a: Own<1>, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub b: u8 }
impl Subj for L_P1_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P1_W2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P1_W2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P1_W2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P1_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P1_W2(pub Own<1>, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8);
impl Subj for T_P1_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P1_W2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P1_W2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P1_W2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P1_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P1_W2 { pub y: Own<1>, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub x: u8 }
impl Subj for Y_P1_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P1_W2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P1_W2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P1_W2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P1_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P1_T2 { pub bb: Own<1>, #[cbor(optional)] pub a: (Own<2>, u8) }
impl Subj for S_P1_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()), fld(t("a"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P1_T2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P1_T2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P1_T2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P1_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P1_R2(pub Own<1>, #[cbor(rename = 302)] pub Own<2>);
impl Subj for T_P1_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P1_R2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P1_R2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P1_R2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P1_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P1_R2 { pub y: Own<1>, #[cbor(rename = 302)] pub x: Own<2> }
impl Subj for Y_P1_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P1_R2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P1_R2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P1_R2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P1_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P1_I3 { pub bb: Own<1>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<3> }
impl Subj for S_P1_I3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()), fld(t("a"), <Own<3> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P1_I3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P1_I3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P1_I3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P1_I3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P1_I3 { pub a: Own<1>, #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<3> }
impl Subj for L_P1_I3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()), fld(t("b"), <Own<3> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P1_I3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P1_I3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P1_I3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P1_I3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P1_W3 { pub bb: Own<1>, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_P1_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P1_W3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P1_W3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P1_W3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P1_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P1_W3(pub Own<1>, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8);
impl Subj for T_P1_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P1_W3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P1_W3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P1_W3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P1_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P1_W3 { pub y: Own<1>, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub x: u8 }
impl Subj for Y_P1_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P1_W3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P1_W3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P1_W3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P1_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P1_T3 { pub bb: Own<1>, #[cbor(optional)] pub a: (Own<3>, u8) }
impl Subj for S_P1_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()), fld(t("a"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P1_T3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P1_T3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P1_T3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P1_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P1_T3 { pub a: Own<1>, #[cbor(optional)] pub b: (Own<3>, u8) }
impl Subj for L_P1_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()), fld(t("b"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P1_T3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P1_T3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P1_T3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P1_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P1_R3(pub Own<1>, #[cbor(rename = 303)] pub Own<3>);
impl Subj for T_P1_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P1_R3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P1_R3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P1_R3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P1_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P1_R3 { pub y: Own<1>, #[cbor(rename = 303)] pub x: Own<3> }
impl Subj for Y_P1_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P1_R3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P1_R3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P1_R3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P1_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O1_P0(#[cbor(optional)] pub Own<1>, pub Own<0>);
impl Subj for T_O1_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()).opt(), fld(NULL, <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O1_P0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O1_P0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O1_P0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O1_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O1_P0 { #[cbor(optional)] pub y: Own<1>, pub x: Own<0> }
impl Subj for Y_O1_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()).opt(), fld(t("x"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O1_P0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O1_P0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O1_P0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O1_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O1_O0 { #[cbor(optional)] pub bb: Own<1>, #[cbor(optional)] pub a: Own<0> }
impl Subj for S_O1_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt(), fld(t("a"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O1_O0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O1_O0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O1_O0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O1_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O1_O0 { #[cbor(optional)] pub a: Own<1>, #[cbor(optional)] pub b: Own<0> }
impl Subj for L_O1_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).opt(), fld(t("b"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O1_O0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O1_O0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O1_O0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O1_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O1_O1 { #[cbor(optional)] pub bb: Own<1>, #[cbor(optional)] pub a: Own<1> }
impl Subj for S_O1_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt(), fld(t("a"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O1_O1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O1_O1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O1_O1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O1_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O1_O1(#[cbor(optional)] pub Own<1>, #[cbor(optional)] pub Own<1>);
impl Subj for T_O1_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()).opt(), fld(NULL, <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O1_O1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O1_O1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O1_O1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O1_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O1_O1 { #[cbor(optional)] pub y: Own<1>, #[cbor(optional)] pub x: Own<1> }
impl Subj for Y_O1_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()).opt(), fld(t("x"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O1_O1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O1_O1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O1_O1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O1_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O1_O2 { #[cbor(optional)] pub bb: Own<1>, #[cbor(optional)] pub a: Own<2> }
impl Subj for S_O1_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt(), fld(t("a"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O1_O2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O1_O2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O1_O2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O1_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O1_O2 { #[cbor(optional)] pub a: Own<1>, #[cbor(optional)] pub b: Own<2> }
impl Subj for L_O1_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).opt(), fld(t("b"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O1_O2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O1_O2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O1_O2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O1_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O1_P3(#[cbor(optional)] pub Own<1>, pub Own<3>);
impl Subj for T_O1_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()).opt(), fld(NULL, <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O1_P3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O1_P3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O1_P3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O1_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O1_P3 { #[cbor(optional)] pub y: Own<1>, pub x: Own<3> }
impl Subj for Y_O1_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()).opt(), fld(t("x"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O1_P3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O1_P3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O1_P3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O1_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O1_O3 { #[cbor(optional)] pub bb: Own<1>, #[cbor(optional)] pub a: Own<3> }
impl Subj for S_O1_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt(), fld(t("a"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O1_O3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O1_O3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O1_O3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O1_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O1_S0 { #[cbor(optional)] pub bb: Own<1>, #[cbor(skip)] pub a: Own<0> }
impl Subj for S_O1_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt(), fld(t("a"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O1_S0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O1_S0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O1_S0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O1_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O1_S0 { #[cbor(optional)] pub a: Own<1>, #[cbor(skip)] pub b: Own<0> }
impl Subj for L_O1_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).opt(), fld(t("b"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O1_S0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O1_S0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O1_S0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O1_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O1_S0(#[cbor(optional)] pub Own<1>, #[cbor(skip)] pub Own<0>);
impl Subj for T_O1_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()).opt(), fld(NULL, <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O1_S0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O1_S0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O1_S0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O1_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O1_S0 { #[cbor(optional)] pub y: Own<1>, #[cbor(skip)] pub x: Own<0> }
impl Subj for Y_O1_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()).opt(), fld(t("x"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O1_S0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O1_S0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O1_S0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O1_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O1_X0 { #[cbor(optional)] pub bb: Own<1>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_O1_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O1_X0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O1_X0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O1_X0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O1_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O1_T0(#[cbor(optional)] pub Own<1>, #[cbor(optional)] pub (Own<0>, u8));
impl Subj for T_O1_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()).opt(), fld(NULL, <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O1_T0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O1_T0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O1_T0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O1_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O1_T0 { #[cbor(optional)] pub y: Own<1>, #[cbor(optional)] pub x: (Own<0>, u8) }
impl Subj for Y_O1_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()).opt(), fld(t("x"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O1_T0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O1_T0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O1_T0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O1_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O1_R0 { #[cbor(optional)] pub bb: Own<1>, #[cbor(rename = 300)] pub a: Own<0> }
impl Subj for S_O1_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt(), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O1_R0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O1_R0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O1_R0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O1_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O1_R0 { #[cbor(optional)] pub a: Own<1>, #[cbor(rename = 300)] pub b: Own<0> }
impl Subj for L_O1_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).opt(), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O1_R0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O1_R0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O1_R0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O1_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O1_S1 { #[cbor(optional)] pub bb: Own<1>, #[cbor(skip)] pub a: Own<1> }
impl Subj for S_O1_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt(), fld(t("a"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O1_S1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O1_S1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O1_S1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O1_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O1_S1(#[cbor(optional)] pub Own<1>, #[cbor(skip)] pub Own<1>);
impl Subj for T_O1_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()).opt(), fld(NULL, <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O1_S1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O1_S1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O1_S1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O1_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O1_S1 { #[cbor(optional)] pub y: Own<1>, #[cbor(skip)] pub x: Own<1> }
impl Subj for Y_O1_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()).opt(), fld(t("x"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O1_S1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O1_S1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O1_S1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O1_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O1_X1 { #[cbor(optional)] pub bb: Own<1>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_O1_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O1_X1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O1_X1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O1_X1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O1_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O1_X1 { #[cbor(optional)] pub a: Own<1>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub b: u8 }
impl Subj for L_O1_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O1_X1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O1_X1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O1_X1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O1_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O1_T1(#[cbor(optional)] pub Own<1>, #[cbor(optional)] pub (Own<1>, u8));
impl Subj for T_O1_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()).opt(), fld(NULL, <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O1_T1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O1_T1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O1_T1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O1_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O1_T1 { #[cbor(optional)] pub y: Own<1>, #[cbor(optional)] pub x: (Own<1>, u8) }
impl Subj for Y_O1_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()).opt(), fld(t("x"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O1_T1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O1_T1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O1_T1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O1_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O1_R1 { #[cbor(optional)] pub bb: Own<1>, #[cbor(rename = 301)] pub a: Own<1> }
impl Subj for S_O1_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt(), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O1_R1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O1_R1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O1_R1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O1_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O1_S2 { #[cbor(optional)] pub bb: Own<1>, #[cbor(skip)] pub a: Own<2> }
impl Subj for S_O1_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt(), fld(t("a"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O1_S2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O1_S2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O1_S2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O1_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O1_S2 { #[cbor(optional)] pub a: Own<1>, #[cbor(skip)] pub b: Own<2> }
impl Subj for L_O1_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).opt(), fld(t("b"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O1_S2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O1_S2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O1_S2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O1_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O1_S2(#[cbor(optional)] pub Own<1>, #[cbor(skip)] pub Own<2>);
impl Subj for T_O1_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()).opt(), fld(NULL, <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O1_S2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O1_S2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O1_S2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O1_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O1_S2 { #[cbor(optional)] pub y: Own<1>, #[cbor(skip)] pub x: Own<2> }
impl Subj for Y_O1_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()).opt(), fld(t("x"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O1_S2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O1_S2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O1_S2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O1_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O1_X2 { #[cbor(optional)] pub bb: Own<1>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_O1_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O1_X2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O1_X2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O1_X2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O1_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O1_T2(#[cbor(optional)] pub Own<1>, #[cbor(optional)] pub (Own<2>, u8));
impl Subj for T_O1_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()).opt(), fld(NULL, <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O1_T2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O1_T2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O1_T2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O1_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O1_T2 { #[cbor(optional)] pub y: Own<1>, #[cbor(optional)] pub x: (Own<2>, u8) }
impl Subj for Y_O1_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()).opt(), fld(t("x"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O1_T2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O1_T2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O1_T2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O1_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O1_R2 { #[cbor(optional)] pub bb: Own<1>, #[cbor(rename = 302)] pub a: Own<2> }
impl Subj for S_O1_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt(), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O1_R2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O1_R2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O1_R2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O1_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O1_R2 { #[cbor(optional)] pub a: Own<1>, #[cbor(rename = 302)] pub b: Own<2> }
impl Subj for L_O1_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).opt(), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O1_R2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O1_R2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O1_R2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O1_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O1_S3 { #[cbor(optional)] pub bb: Own<1>, #[cbor(skip)] pub a: Own<3> }
impl Subj for S_O1_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt(), fld(t("a"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O1_S3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O1_S3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O1_S3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O1_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O1_S3(#[cbor(optional)] pub Own<1>, #[cbor(skip)] pub Own<3>);
impl Subj for T_O1_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()).opt(), fld(NULL, <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O1_S3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O1_S3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O1_S3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O1_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O1_S3 { #[cbor(optional)] pub y: Own<1>, #[cbor(skip)] pub x: Own<3> }
impl Subj for Y_O1_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()).opt(), fld(t("x"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O1_S3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O1_S3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O1_S3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O1_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O1_X3 { #[cbor(optional)] pub bb: Own<1>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_O1_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O1_X3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O1_X3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O1_X3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O1_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O1_X3 { #[cbor(optional)] pub a: Own<1>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub b: u8 }
impl Subj for L_O1_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O1_X3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O1_X3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O1_X3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O1_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O1_T3(#[cbor(optional)] pub Own<1>, #[cbor(optional)] pub (Own<3>, u8));
impl Subj for T_O1_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()).opt(), fld(NULL, <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O1_T3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O1_T3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O1_T3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O1_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O1_T3 { #[cbor(optional)] pub y: Own<1>, #[cbor(optional)] pub x: (Own<3>, u8) }
impl Subj for Y_O1_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()).opt(), fld(t("x"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O1_T3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O1_T3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O1_T3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O1_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O1_R3 { #[cbor(optional)] pub bb: Own<1>, #[cbor(rename = 303)] pub a: Own<3> }
impl Subj for S_O1_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt(), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O1_R3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O1_R3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O1_R3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O1_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P2_P0 { pub bb: Own<2>, pub a: Own<0> }
impl Subj for S_P2_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()), fld(t("a"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P2_P0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P2_P0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P2_P0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P2_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P2_P0 { pub a: Own<2>, pub b: Own<0> }
impl Subj for L_P2_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()), fld(t("b"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P2_P0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P2_P0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P2_P0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P2_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P2_P1 { pub bb: Own<2>, pub a: Own<1> }
impl Subj for S_P2_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()), fld(t("a"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P2_P1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P2_P1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P2_P1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P2_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P2_P1(pub Own<2>, pub Own<1>);
impl Subj for T_P2_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()), fld(NULL, <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P2_P1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P2_P1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P2_P1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P2_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P2_P1 { pub y: Own<2>, pub x: Own<1> }
impl Subj for Y_P2_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<2> as Subj>::ty()), fld(t("x"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P2_P1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P2_P1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P2_P1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P2_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P2_P2 { pub bb: Own<2>, pub a: Own<2> }
impl Subj for S_P2_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()), fld(t("a"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P2_P2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P2_P2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P2_P2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P2_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P2_P2 { pub a: Own<2>, pub b: Own<2> }
impl Subj for L_P2_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()), fld(t("b"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P2_P2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P2_P2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P2_P2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P2_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P2_O2(pub Own<2>, #[cbor(optional)] pub Own<2>);
impl Subj for T_P2_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()), fld(NULL, <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P2_O2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P2_O2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P2_O2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P2_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P2_O2 { pub y: Own<2>, #[cbor(optional)] pub x: Own<2> }
impl Subj for Y_P2_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<2> as Subj>::ty()), fld(t("x"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P2_O2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P2_O2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P2_O2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P2_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P2_P3 { pub bb: Own<2>, pub a: Own<3> }
impl Subj for S_P2_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()), fld(t("a"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P2_P3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P2_P3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P2_P3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P2_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P2_I0 { pub bb: Own<2>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<0> }
impl Subj for S_P2_I0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()), fld(t("a"), <Own<0> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P2_I0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P2_I0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P2_I0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P2_I0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P2_I0 { pub a: Own<2>, #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<0> }
impl Subj for L_P2_I0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()), fld(t("b"), <Own<0> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P2_I0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P2_I0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P2_I0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P2_I0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P2_W0 { pub bb: Own<2>, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_P2_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P2_W0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P2_W0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P2_W0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P2_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P2_X0(pub Own<2>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8);
impl Subj for T_P2_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P2_X0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P2_X0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P2_X0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P2_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P2_X0 { pub y: Own<2>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub x: u8 }
impl Subj for Y_P2_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<2> as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P2_X0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P2_X0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P2_X0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P2_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P2_T0 { pub bb: Own<2>, #[cbor(optional)] pub a: (Own<0>, u8) }
impl Subj for S_P2_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()), fld(t("a"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P2_T0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P2_T0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P2_T0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P2_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P2_T0 { pub a: Own<2>, #[cbor(optional)] pub b: (Own<0>, u8) }
impl Subj for L_P2_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()), fld(t("b"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P2_T0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P2_T0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P2_T0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P2_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P2_I1 { pub bb: Own<2>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<1> }
impl Subj for S_P2_I1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()), fld(t("a"), <Own<1> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P2_I1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P2_I1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P2_I1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P2_I1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P2_W1 { pub bb: Own<2>, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_P2_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P2_W1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P2_W1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P2_W1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P2_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P2_W1 { pub a: Own<2>, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub b: u8 }
impl Subj for L_P2_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P2_W1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P2_W1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P2_W1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P2_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P2_X1(pub Own<2>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8);
impl Subj for T_P2_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P2_X1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P2_X1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P2_X1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P2_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P2_X1 { pub y: Own<2>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub x: u8 }
impl Subj for Y_P2_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<2> as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P2_X1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P2_X1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P2_X1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P2_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P2_T1 { pub bb: Own<2>, #[cbor(optional)] pub a: (Own<1>, u8) }
impl Subj for S_P2_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()), fld(t("a"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P2_T1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P2_T1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P2_T1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P2_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P2_I2 { pub bb: Own<2>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<2> }
impl Subj for S_P2_I2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()), fld(t("a"), <Own<2> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P2_I2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P2_I2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P2_I2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P2_I2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P2_I2 { pub a: Own<2>, #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<2> }
impl Subj for L_P2_I2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()), fld(t("b"), <Own<2> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P2_I2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P2_I2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P2_I2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P2_I2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P2_W2 { pub bb: Own<2>, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_P2_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P2_W2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P2_W2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P2_W2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P2_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P2_X2(pub Own<2>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8);
impl Subj for T_P2_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P2_X2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P2_X2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P2_X2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P2_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P2_X2 { pub y: Own<2>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub x: u8 }
impl Subj for Y_P2_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<2> as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P2_X2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P2_X2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P2_X2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P2_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P2_T2 { pub bb: Own<2>, #[cbor(optional)] pub a: (Own<2>, u8) }
impl Subj for S_P2_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()), fld(t("a"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P2_T2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P2_T2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P2_T2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P2_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P2_T2 { pub a: Own<2>, #[cbor(optional)] pub b: (Own<2>, u8) }
impl Subj for L_P2_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()), fld(t("b"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P2_T2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P2_T2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P2_T2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P2_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P2_I3 { pub bb: Own<2>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<3> }
impl Subj for S_P2_I3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()), fld(t("a"), <Own<3> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P2_I3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P2_I3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P2_I3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P2_I3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P2_W3 { pub bb: Own<2>, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_P2_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P2_W3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P2_W3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P2_W3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P2_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P2_W3 { pub a: Own<2>, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub b: u8 }
impl Subj for L_P2_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P2_W3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P2_W3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P2_W3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P2_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P2_X3(pub Own<2>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8);
impl Subj for T_P2_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P2_X3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P2_X3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P2_X3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P2_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P2_X3 { pub y: Own<2>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub x: u8 }
impl Subj for Y_P2_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<2> as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P2_X3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P2_X3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P2_X3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P2_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P2_T3 { pub bb: Own<2>, #[cbor(optional)] pub a: (Own<3>, u8) }
impl Subj for S_P2_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()), fld(t("a"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P2_T3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P2_T3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P2_T3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P2_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O2_O0 { #[cbor(optional)] pub bb: Own<2>, #[cbor(optional)] pub a: Own<0> }
impl Subj for S_O2_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt(), fld(t("a"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O2_O0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O2_O0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O2_O0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O2_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O2_O0(#[cbor(optional)] pub Own<2>, #[cbor(optional)] pub Own<0>);
impl Subj for T_O2_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()).opt(), fld(NULL, <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O2_O0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O2_O0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O2_O0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O2_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O2_O0 { #[cbor(optional)] pub y: Own<2>, #[cbor(optional)] pub x: Own<0> }
impl Subj for Y_O2_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<2> as Subj>::ty()).opt(), fld(t("x"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O2_O0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O2_O0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O2_O0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O2_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O2_P1 { #[cbor(optional)] pub bb: Own<2>, pub a: Own<1> }
impl Subj for S_O2_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt(), fld(t("a"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O2_P1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O2_P1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O2_P1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O2_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O2_O1 { #[cbor(optional)] pub bb: Own<2>, #[cbor(optional)] pub a: Own<1> }
impl Subj for S_O2_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt(), fld(t("a"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O2_O1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O2_O1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O2_O1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O2_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O2_O1 { #[cbor(optional)] pub a: Own<2>, #[cbor(optional)] pub b: Own<1> }
impl Subj for L_O2_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).opt(), fld(t("b"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O2_O1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O2_O1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O2_O1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O2_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O2_P2(#[cbor(optional)] pub Own<2>, pub Own<2>);
impl Subj for T_O2_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()).opt(), fld(NULL, <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O2_P2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O2_P2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O2_P2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O2_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O2_P2 { #[cbor(optional)] pub y: Own<2>, pub x: Own<2> }
impl Subj for Y_O2_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<2> as Subj>::ty()).opt(), fld(t("x"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O2_P2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O2_P2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O2_P2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O2_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O2_O2 { #[cbor(optional)] pub bb: Own<2>, #[cbor(optional)] pub a: Own<2> }
impl Subj for S_O2_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt(), fld(t("a"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O2_O2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O2_O2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O2_O2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O2_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O2_O3 { #[cbor(optional)] pub bb: Own<2>, #[cbor(optional)] pub a: Own<3> }
impl Subj for S_O2_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt(), fld(t("a"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O2_O3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O2_O3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O2_O3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O2_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O2_O3 { #[cbor(optional)] pub a: Own<2>, #[cbor(optional)] pub b: Own<3> }
impl Subj for L_O2_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).opt(), fld(t("b"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O2_O3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O2_O3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O2_O3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O2_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O2_O3(#[cbor(optional)] pub Own<2>, #[cbor(optional)] pub Own<3>);
impl Subj for T_O2_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()).opt(), fld(NULL, <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O2_O3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O2_O3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O2_O3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O2_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O2_O3 { #[cbor(optional)] pub y: Own<2>, #[cbor(optional)] pub x: Own<3> }
impl Subj for Y_O2_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<2> as Subj>::ty()).opt(), fld(t("x"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O2_O3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O2_O3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O2_O3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O2_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O2_S0 { #[cbor(optional)] pub bb: Own<2>, #[cbor(skip)] pub a: Own<0> }
impl Subj for S_O2_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt(), fld(t("a"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O2_S0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O2_S0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O2_S0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O2_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O2_W0(#[cbor(optional)] pub Own<2>, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8);
impl Subj for T_O2_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O2_W0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O2_W0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O2_W0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O2_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O2_W0 { #[cbor(optional)] pub y: Own<2>, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub x: u8 }
impl Subj for Y_O2_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<2> as Subj>::ty()).opt(), fld(t("x"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O2_W0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O2_W0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O2_W0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O2_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O2_X0 { #[cbor(optional)] pub bb: Own<2>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_O2_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O2_X0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O2_X0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O2_X0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O2_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O2_X0 { #[cbor(optional)] pub a: Own<2>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub b: u8 }
impl Subj for L_O2_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O2_X0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O2_X0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O2_X0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O2_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O2_R0 { #[cbor(optional)] pub bb: Own<2>, #[cbor(rename = 300)] pub a: Own<0> }
impl Subj for S_O2_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt(), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O2_R0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O2_R0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O2_R0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O2_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O2_R0(#[cbor(optional)] pub Own<2>, #[cbor(rename = 300)] pub Own<0>);
impl Subj for T_O2_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()).opt(), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O2_R0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O2_R0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O2_R0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O2_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O2_R0 { #[cbor(optional)] pub y: Own<2>, #[cbor(rename = 300)] pub x: Own<0> }
impl Subj for Y_O2_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<2> as Subj>::ty()).opt(), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O2_R0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O2_R0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O2_R0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O2_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O2_S1 { #[cbor(optional)] pub bb: Own<2>, #[cbor(skip)] pub a: Own<1> }
impl Subj for S_O2_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt(), fld(t("a"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O2_S1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O2_S1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O2_S1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O2_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O2_S1 { #[cbor(optional)] pub a: Own<2>, #[cbor(skip)] pub b: Own<1> }
impl Subj for L_O2_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).opt(), fld(t("b"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O2_S1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O2_S1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O2_S1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O2_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O2_W1(#[cbor(optional)] pub Own<2>, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8);
impl Subj for T_O2_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O2_W1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O2_W1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O2_W1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O2_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O2_W1 { #[cbor(optional)] pub y: Own<2>, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub x: u8 }
impl Subj for Y_O2_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<2> as Subj>::ty()).opt(), fld(t("x"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O2_W1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O2_W1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O2_W1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O2_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O2_X1 { #[cbor(optional)] pub bb: Own<2>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_O2_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O2_X1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O2_X1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O2_X1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O2_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O2_R1 { #[cbor(optional)] pub bb: Own<2>, #[cbor(rename = 301)] pub a: Own<1> }
impl Subj for S_O2_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt(), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O2_R1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O2_R1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O2_R1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O2_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O2_R1 { #[cbor(optional)] pub a: Own<2>, #[cbor(rename = 301)] pub b: Own<1> }
impl Subj for L_O2_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).opt(), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O2_R1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O2_R1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O2_R1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O2_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O2_R1(#[cbor(optional)] pub Own<2>, #[cbor(rename = 301)] pub Own<1>);
impl Subj for T_O2_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()).opt(), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O2_R1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O2_R1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O2_R1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O2_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O2_R1 { #[cbor(optional)] pub y: Own<2>, #[cbor(rename = 301)] pub x: Own<1> }
impl Subj for Y_O2_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<2> as Subj>::ty()).opt(), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O2_R1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O2_R1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O2_R1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O2_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O2_S2 { #[cbor(optional)] pub bb: Own<2>, #[cbor(skip)] pub a: Own<2> }
impl Subj for S_O2_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt(), fld(t("a"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O2_S2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O2_S2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O2_S2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O2_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O2_W2(#[cbor(optional)] pub Own<2>, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8);
impl Subj for T_O2_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O2_W2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O2_W2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O2_W2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O2_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O2_W2 { #[cbor(optional)] pub y: Own<2>, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub x: u8 }
impl Subj for Y_O2_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<2> as Subj>::ty()).opt(), fld(t("x"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O2_W2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O2_W2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O2_W2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O2_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O2_X2 { #[cbor(optional)] pub bb: Own<2>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_O2_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O2_X2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O2_X2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O2_X2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O2_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O2_X2 { #[cbor(optional)] pub a: Own<2>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub b: u8 }
impl Subj for L_O2_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O2_X2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O2_X2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O2_X2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O2_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O2_R2 { #[cbor(optional)] pub bb: Own<2>, #[cbor(rename = 302)] pub a: Own<2> }
impl Subj for S_O2_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt(), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O2_R2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O2_R2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O2_R2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O2_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O2_R2(#[cbor(optional)] pub Own<2>, #[cbor(rename = 302)] pub Own<2>);
impl Subj for T_O2_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()).opt(), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O2_R2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O2_R2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O2_R2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O2_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O2_R2 { #[cbor(optional)] pub y: Own<2>, #[cbor(rename = 302)] pub x: Own<2> }
impl Subj for Y_O2_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<2> as Subj>::ty()).opt(), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O2_R2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O2_R2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O2_R2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O2_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O2_S3 { #[cbor(optional)] pub bb: Own<2>, #[cbor(skip)] pub a: Own<3> }
impl Subj for S_O2_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt(), fld(t("a"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O2_S3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O2_S3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O2_S3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O2_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O2_S3 { #[cbor(optional)] pub a: Own<2>, #[cbor(skip)] pub b: Own<3> }
impl Subj for L_O2_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).opt(), fld(t("b"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O2_S3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O2_S3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O2_S3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O2_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O2_W3(#[cbor(optional)] pub Own<2>, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8);
impl Subj for T_O2_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O2_W3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O2_W3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O2_W3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O2_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O2_W3 { #[cbor(optional)] pub y: Own<2>, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub x: u8 }
impl Subj for Y_O2_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<2> as Subj>::ty()).opt(), fld(t("x"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O2_W3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O2_W3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O2_W3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O2_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O2_X3 { #[cbor(optional)] pub bb: Own<2>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_O2_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O2_X3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O2_X3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O2_X3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O2_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O2_R3 { #[cbor(optional)] pub bb: Own<2>, #[cbor(rename = 303)] pub a: Own<3> }
impl Subj for S_O2_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt(), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O2_R3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O2_R3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O2_R3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O2_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O2_R3 { #[cbor(optional)] pub a: Own<2>, #[cbor(rename = 303)] pub b: Own<3> }
impl Subj for L_O2_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).opt(), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O2_R3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O2_R3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O2_R3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O2_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O2_R3(#[cbor(optional)] pub Own<2>, #[cbor(rename = 303)] pub Own<3>);
impl Subj for T_O2_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()).opt(), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O2_R3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O2_R3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O2_R3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O2_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O2_R3 { #[cbor(optional)] pub y: Own<2>, #[cbor(rename = 303)] pub x: Own<3> }
impl Subj for Y_O2_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<2> as Subj>::ty()).opt(), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O2_R3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O2_R3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O2_R3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O2_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P3_P0 { pub bb: Own<3>, pub a: Own<0> }
impl Subj for S_P3_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()), fld(t("a"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P3_P0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P3_P0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P3_P0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P3_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P3_P0(pub Own<3>, pub Own<0>);
impl Subj for T_P3_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty()), fld(NULL, <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P3_P0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P3_P0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P3_P0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P3_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P3_P0 { pub y: Own<3>, pub x: Own<0> }
impl Subj for Y_P3_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<3> as Subj>::ty()), fld(t("x"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P3_P0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P3_P0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P3_P0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P3_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P3_P1 { pub bb: Own<3>, pub a: Own<1> }
impl Subj for S_P3_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()), fld(t("a"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P3_P1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P3_P1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P3_P1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P3_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P3_P1 { pub a: Own<3>, pub b: Own<1> }
impl Subj for L_P3_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()), fld(t("b"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P3_P1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P3_P1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P3_P1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P3_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P3_O1(pub Own<3>, #[cbor(optional)] pub Own<1>);
impl Subj for T_P3_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty()), fld(NULL, <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P3_O1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P3_O1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P3_O1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P3_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P3_O1 { pub y: Own<3>, #[cbor(optional)] pub x: Own<1> }
impl Subj for Y_P3_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<3> as Subj>::ty()), fld(t("x"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P3_O1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P3_O1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P3_O1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P3_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P3_P2 { pub bb: Own<3>, pub a: Own<2> }
impl Subj for S_P3_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()), fld(t("a"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P3_P2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P3_P2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P3_P2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P3_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P3_P3 { pub bb: Own<3>, pub a: Own<3> }
impl Subj for S_P3_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()), fld(t("a"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P3_P3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P3_P3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P3_P3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P3_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P3_P3 { pub a: Own<3>, pub b: Own<3> }
impl Subj for L_P3_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()), fld(t("b"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P3_P3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P3_P3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P3_P3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P3_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P3_P3(pub Own<3>, pub Own<3>);
impl Subj for T_P3_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty()), fld(NULL, <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P3_P3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P3_P3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P3_P3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P3_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P3_P3 { pub y: Own<3>, pub x: Own<3> }
impl Subj for Y_P3_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<3> as Subj>::ty()), fld(t("x"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P3_P3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P3_P3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P3_P3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P3_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P3_I0 { pub bb: Own<3>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<0> }
impl Subj for S_P3_I0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()), fld(t("a"), <Own<0> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P3_I0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P3_I0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P3_I0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P3_I0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P3_S0(pub Own<3>, #[cbor(skip)] pub Own<0>);
impl Subj for T_P3_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty()), fld(NULL, <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P3_S0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P3_S0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P3_S0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P3_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P3_S0 { pub y: Own<3>, #[cbor(skip)] pub x: Own<0> }
impl Subj for Y_P3_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<3> as Subj>::ty()), fld(t("x"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P3_S0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P3_S0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P3_S0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P3_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P3_W0 { pub bb: Own<3>, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_P3_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P3_W0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P3_W0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P3_W0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P3_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P3_W0 { pub a: Own<3>, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub b: u8 }
impl Subj for L_P3_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P3_W0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P3_W0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P3_W0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P3_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P3_T0 { pub bb: Own<3>, #[cbor(optional)] pub a: (Own<0>, u8) }
impl Subj for S_P3_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()), fld(t("a"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P3_T0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P3_T0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P3_T0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P3_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P3_T0(pub Own<3>, #[cbor(optional)] pub (Own<0>, u8));
impl Subj for T_P3_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty()), fld(NULL, <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P3_T0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P3_T0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P3_T0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P3_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P3_T0 { pub y: Own<3>, #[cbor(optional)] pub x: (Own<0>, u8) }
impl Subj for Y_P3_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<3> as Subj>::ty()), fld(t("x"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P3_T0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P3_T0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P3_T0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P3_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P3_I1 { pub bb: Own<3>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<1> }
impl Subj for S_P3_I1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()), fld(t("a"), <Own<1> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P3_I1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P3_I1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P3_I1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P3_I1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P3_I1 { pub a: Own<3>, #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<1> }
impl Subj for L_P3_I1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()), fld(t("b"), <Own<1> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P3_I1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P3_I1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P3_I1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P3_I1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P3_S1(pub Own<3>, #[cbor(skip)] pub Own<1>);
impl Subj for T_P3_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty()), fld(NULL, <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P3_S1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P3_S1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P3_S1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P3_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P3_S1 { pub y: Own<3>, #[cbor(skip)] pub x: Own<1> }
impl Subj for Y_P3_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<3> as Subj>::ty()), fld(t("x"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P3_S1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P3_S1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P3_S1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P3_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P3_W1 { pub bb: Own<3>, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_P3_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P3_W1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P3_W1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P3_W1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P3_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P3_T1 { pub bb: Own<3>, #[cbor(optional)] pub a: (Own<1>, u8) }
impl Subj for S_P3_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()), fld(t("a"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P3_T1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P3_T1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P3_T1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P3_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P3_T1 { pub a: Own<3>, #[cbor(optional)] pub b: (Own<1>, u8) }
impl Subj for L_P3_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()), fld(t("b"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P3_T1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P3_T1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P3_T1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P3_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P3_T1(pub Own<3>, #[cbor(optional)] pub (Own<1>, u8));
impl Subj for T_P3_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty()), fld(NULL, <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P3_T1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P3_T1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P3_T1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P3_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P3_T1 { pub y: Own<3>, #[cbor(optional)] pub x: (Own<1>, u8) }
impl Subj for Y_P3_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<3> as Subj>::ty()), fld(t("x"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P3_T1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P3_T1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P3_T1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P3_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P3_I2 { pub bb: Own<3>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<2> }
impl Subj for S_P3_I2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()), fld(t("a"), <Own<2> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P3_I2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P3_I2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P3_I2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P3_I2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P3_S2(pub Own<3>, #[cbor(skip)] pub Own<2>);
impl Subj for T_P3_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty()), fld(NULL, <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P3_S2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P3_S2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P3_S2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P3_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P3_S2 { pub y: Own<3>, #[cbor(skip)] pub x: Own<2> }
impl Subj for Y_P3_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<3> as Subj>::ty()), fld(t("x"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P3_S2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P3_S2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P3_S2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P3_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P3_W2 { pub bb: Own<3>, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_P3_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P3_W2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P3_W2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P3_W2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P3_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P3_W2 { pub a: Own<3>, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub b: u8 }
impl Subj for L_P3_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P3_W2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P3_W2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P3_W2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P3_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P3_T2 { pub bb: Own<3>, #[cbor(optional)] pub a: (Own<2>, u8) }
impl Subj for S_P3_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()), fld(t("a"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P3_T2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P3_T2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P3_T2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P3_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P3_T2(pub Own<3>, #[cbor(optional)] pub (Own<2>, u8));
impl Subj for T_P3_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty()), fld(NULL, <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P3_T2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P3_T2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P3_T2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P3_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P3_T2 { pub y: Own<3>, #[cbor(optional)] pub x: (Own<2>, u8) }
impl Subj for Y_P3_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<3> as Subj>::ty()), fld(t("x"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P3_T2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P3_T2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P3_T2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P3_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P3_I3 { pub bb: Own<3>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<3> }
impl Subj for S_P3_I3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()), fld(t("a"), <Own<3> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P3_I3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P3_I3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P3_I3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P3_I3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P3_I3 { pub a: Own<3>, #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<3> }
impl Subj for L_P3_I3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()), fld(t("b"), <Own<3> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P3_I3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P3_I3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P3_I3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P3_I3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P3_S3(pub Own<3>, #[cbor(skip)] pub Own<3>);
impl Subj for T_P3_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty()), fld(NULL, <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P3_S3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P3_S3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P3_S3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P3_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P3_S3 { pub y: Own<3>, #[cbor(skip)] pub x: Own<3> }
impl Subj for Y_P3_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<3> as Subj>::ty()), fld(t("x"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P3_S3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P3_S3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P3_S3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P3_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P3_W3 { pub bb: Own<3>, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_P3_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P3_W3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P3_W3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P3_W3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P3_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_P3_T3 { pub bb: Own<3>, #[cbor(optional)] pub a: (Own<3>, u8) }
impl Subj for S_P3_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()), fld(t("a"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_P3_T3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_P3_T3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_P3_T3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_P3_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_P3_T3 { pub a: Own<3>, #[cbor(optional)] pub b: (Own<3>, u8) }
impl Subj for L_P3_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()), fld(t("b"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_P3_T3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_P3_T3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_P3_T3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_P3_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_P3_T3(pub Own<3>, #[cbor(optional)] pub (Own<3>, u8));
impl Subj for T_P3_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty()), fld(NULL, <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_P3_T3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_P3_T3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_P3_T3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_P3_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_P3_T3 { pub y: Own<3>, #[cbor(optional)] pub x: (Own<3>, u8) }
impl Subj for Y_P3_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<3> as Subj>::ty()), fld(t("x"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_P3_T3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_P3_T3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_P3_T3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_P3_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O3_O0 { #[cbor(optional)] pub bb: Own<3>, #[cbor(optional)] pub a: Own<0> }
impl Subj for S_O3_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt(), fld(t("a"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O3_O0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O3_O0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O3_O0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O3_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O3_O0 { #[cbor(optional)] pub a: Own<3>, #[cbor(optional)] pub b: Own<0> }
impl Subj for L_O3_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).opt(), fld(t("b"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O3_O0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O3_O0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O3_O0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O3_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O3_P1(#[cbor(optional)] pub Own<3>, pub Own<1>);
impl Subj for T_O3_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty()).opt(), fld(NULL, <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O3_P1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O3_P1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O3_P1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O3_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O3_P1 { #[cbor(optional)] pub y: Own<3>, pub x: Own<1> }
impl Subj for Y_O3_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<3> as Subj>::ty()).opt(), fld(t("x"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O3_P1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O3_P1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O3_P1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O3_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O3_O1 { #[cbor(optional)] pub bb: Own<3>, #[cbor(optional)] pub a: Own<1> }
impl Subj for S_O3_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt(), fld(t("a"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O3_O1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O3_O1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O3_O1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O3_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O3_O2 { #[cbor(optional)] pub bb: Own<3>, #[cbor(optional)] pub a: Own<2> }
impl Subj for S_O3_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt(), fld(t("a"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O3_O2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O3_O2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O3_O2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O3_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O3_O2 { #[cbor(optional)] pub a: Own<3>, #[cbor(optional)] pub b: Own<2> }
impl Subj for L_O3_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).opt(), fld(t("b"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O3_O2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O3_O2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O3_O2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O3_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O3_O2(#[cbor(optional)] pub Own<3>, #[cbor(optional)] pub Own<2>);
impl Subj for T_O3_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty()).opt(), fld(NULL, <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O3_O2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O3_O2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O3_O2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O3_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O3_O2 { #[cbor(optional)] pub y: Own<3>, #[cbor(optional)] pub x: Own<2> }
impl Subj for Y_O3_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<3> as Subj>::ty()).opt(), fld(t("x"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O3_O2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O3_O2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O3_O2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O3_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O3_O3 { #[cbor(optional)] pub bb: Own<3>, #[cbor(optional)] pub a: Own<3> }
impl Subj for S_O3_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt(), fld(t("a"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O3_O3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O3_O3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O3_O3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O3_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O3_S0 { #[cbor(optional)] pub bb: Own<3>, #[cbor(skip)] pub a: Own<0> }
impl Subj for S_O3_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt(), fld(t("a"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O3_S0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O3_S0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O3_S0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O3_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O3_S0 { #[cbor(optional)] pub a: Own<3>, #[cbor(skip)] pub b: Own<0> }
impl Subj for L_O3_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).opt(), fld(t("b"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O3_S0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O3_S0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O3_S0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O3_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O3_X0 { #[cbor(optional)] pub bb: Own<3>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_O3_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O3_X0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O3_X0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O3_X0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O3_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O3_X0(#[cbor(optional)] pub Own<3>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8);
impl Subj for T_O3_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O3_X0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O3_X0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O3_X0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O3_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O3_X0 { #[cbor(optional)] pub y: Own<3>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub x: u8 }
impl Subj for Y_O3_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<3> as Subj>::ty()).opt(), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O3_X0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O3_X0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O3_X0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O3_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O3_R0 { #[cbor(optional)] pub bb: Own<3>, #[cbor(rename = 300)] pub a: Own<0> }
impl Subj for S_O3_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt(), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O3_R0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O3_R0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O3_R0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O3_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O3_R0 { #[cbor(optional)] pub a: Own<3>, #[cbor(rename = 300)] pub b: Own<0> }
impl Subj for L_O3_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).opt(), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O3_R0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O3_R0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O3_R0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O3_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O3_S1 { #[cbor(optional)] pub bb: Own<3>, #[cbor(skip)] pub a: Own<1> }
impl Subj for S_O3_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt(), fld(t("a"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O3_S1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O3_S1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O3_S1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O3_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O3_X1 { #[cbor(optional)] pub bb: Own<3>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_O3_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O3_X1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O3_X1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O3_X1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O3_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O3_X1 { #[cbor(optional)] pub a: Own<3>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub b: u8 }
impl Subj for L_O3_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O3_X1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O3_X1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O3_X1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O3_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O3_X1(#[cbor(optional)] pub Own<3>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8);
impl Subj for T_O3_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O3_X1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O3_X1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O3_X1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O3_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O3_X1 { #[cbor(optional)] pub y: Own<3>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub x: u8 }
impl Subj for Y_O3_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<3> as Subj>::ty()).opt(), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O3_X1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O3_X1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O3_X1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O3_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O3_R1 { #[cbor(optional)] pub bb: Own<3>, #[cbor(rename = 301)] pub a: Own<1> }
impl Subj for S_O3_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt(), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O3_R1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O3_R1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O3_R1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O3_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O3_S2 { #[cbor(optional)] pub bb: Own<3>, #[cbor(skip)] pub a: Own<2> }
impl Subj for S_O3_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt(), fld(t("a"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O3_S2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O3_S2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O3_S2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O3_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O3_S2 { #[cbor(optional)] pub a: Own<3>, #[cbor(skip)] pub b: Own<2> }
impl Subj for L_O3_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).opt(), fld(t("b"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O3_S2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O3_S2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O3_S2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O3_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O3_X2 { #[cbor(optional)] pub bb: Own<3>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_O3_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O3_X2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O3_X2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O3_X2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O3_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O3_X2(#[cbor(optional)] pub Own<3>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8);
impl Subj for T_O3_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O3_X2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O3_X2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O3_X2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O3_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O3_X2 { #[cbor(optional)] pub y: Own<3>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub x: u8 }
impl Subj for Y_O3_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<3> as Subj>::ty()).opt(), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O3_X2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O3_X2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O3_X2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O3_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O3_R2 { #[cbor(optional)] pub bb: Own<3>, #[cbor(rename = 302)] pub a: Own<2> }
impl Subj for S_O3_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt(), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O3_R2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O3_R2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O3_R2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O3_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O3_R2 { #[cbor(optional)] pub a: Own<3>, #[cbor(rename = 302)] pub b: Own<2> }
impl Subj for L_O3_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).opt(), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O3_R2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O3_R2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O3_R2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O3_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O3_S3 { #[cbor(optional)] pub bb: Own<3>, #[cbor(skip)] pub a: Own<3> }
impl Subj for S_O3_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt(), fld(t("a"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O3_S3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O3_S3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O3_S3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O3_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O3_X3 { #[cbor(optional)] pub bb: Own<3>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_O3_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O3_X3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O3_X3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O3_X3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O3_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_O3_X3 { #[cbor(optional)] pub a: Own<3>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub b: u8 }
impl Subj for L_O3_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_O3_X3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_O3_X3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_O3_X3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_O3_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_O3_X3(#[cbor(optional)] pub Own<3>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8);
impl Subj for T_O3_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_O3_X3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_O3_X3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_O3_X3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_O3_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_O3_X3 { #[cbor(optional)] pub y: Own<3>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub x: u8 }
impl Subj for Y_O3_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<3> as Subj>::ty()).opt(), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_O3_X3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_O3_X3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_O3_X3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_O3_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_O3_R3 { #[cbor(optional)] pub bb: Own<3>, #[cbor(rename = 303)] pub a: Own<3> }
impl Subj for S_O3_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt(), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_O3_R3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_O3_R3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_O3_R3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_O3_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I0_P0 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<0>, pub a: Own<0> }
impl Subj for S_I0_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I0_P0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I0_P0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I0_P0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I0_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I0_P0 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<0>, pub b: Own<0> }
impl Subj for L_I0_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I0_P0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I0_P0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I0_P0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I0_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I0_P1 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<0>, pub a: Own<1> }
impl Subj for S_I0_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I0_P1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I0_P1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I0_P1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I0_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I0_P2 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<0>, pub a: Own<2> }
impl Subj for S_I0_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I0_P2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I0_P2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I0_P2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I0_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I0_P2 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<0>, pub b: Own<2> }
impl Subj for L_I0_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I0_P2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I0_P2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I0_P2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I0_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I0_P3 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<0>, pub a: Own<3> }
impl Subj for S_I0_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I0_P3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I0_P3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I0_P3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I0_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I0_I0 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<0>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<0> }
impl Subj for S_I0_I0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<0> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I0_I0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I0_I0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I0_I0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I0_I0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I0_I0 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<0>, #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<0> }
impl Subj for L_I0_I0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <Own<0> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I0_I0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I0_I0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I0_I0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I0_I0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I0_W0 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<0>, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_I0_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I0_W0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I0_W0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I0_W0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I0_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I0_T0 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<0>, #[cbor(optional)] pub a: (Own<0>, u8) }
impl Subj for S_I0_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I0_T0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I0_T0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I0_T0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I0_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I0_T0 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<0>, #[cbor(optional)] pub b: (Own<0>, u8) }
impl Subj for L_I0_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I0_T0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I0_T0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I0_T0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I0_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I0_I1 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<0>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<1> }
impl Subj for S_I0_I1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<1> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I0_I1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I0_I1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I0_I1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I0_I1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I0_W1 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<0>, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_I0_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I0_W1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I0_W1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I0_W1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I0_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I0_W1 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<0>, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub b: u8 }
impl Subj for L_I0_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I0_W1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I0_W1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I0_W1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I0_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I0_T1 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<0>, #[cbor(optional)] pub a: (Own<1>, u8) }
impl Subj for S_I0_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I0_T1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I0_T1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I0_T1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I0_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I0_I2 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<0>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<2> }
impl Subj for S_I0_I2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<2> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I0_I2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I0_I2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I0_I2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I0_I2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I0_I2 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<0>, #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<2> }
impl Subj for L_I0_I2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <Own<2> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I0_I2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I0_I2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I0_I2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I0_I2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I0_W2 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<0>, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_I0_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I0_W2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I0_W2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I0_W2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I0_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I0_T2 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<0>, #[cbor(optional)] pub a: (Own<2>, u8) }
impl Subj for S_I0_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I0_T2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I0_T2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I0_T2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I0_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I0_T2 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<0>, #[cbor(optional)] pub b: (Own<2>, u8) }
impl Subj for L_I0_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I0_T2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I0_T2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I0_T2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I0_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I0_I3 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<0>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<3> }
impl Subj for S_I0_I3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<3> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I0_I3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I0_I3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I0_I3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I0_I3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I0_W3 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<0>, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_I0_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I0_W3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I0_W3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I0_W3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I0_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I0_W3 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<0>, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub b: u8 }
impl Subj for L_I0_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I0_W3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I0_W3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I0_W3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I0_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I0_T3 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<0>, #[cbor(optional)] pub a: (Own<3>, u8) }
impl Subj for S_I0_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I0_T3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I0_T3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I0_T3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I0_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S0_P0(#[cbor(skip)] pub Own<0>, pub Own<0>);
impl Subj for T_S0_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()).skipped(), fld(NULL, <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S0_P0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S0_P0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S0_P0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S0_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S0_P0 { #[cbor(skip)] pub y: Own<0>, pub x: Own<0> }
impl Subj for Y_S0_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<0> as Subj>::ty()).skipped(), fld(t("x"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S0_P0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S0_P0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S0_P0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S0_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S0_O0 { #[cbor(skip)] pub bb: Own<0>, #[cbor(optional)] pub a: Own<0> }
impl Subj for S_S0_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).skipped(), fld(t("a"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S0_O0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S0_O0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S0_O0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S0_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S0_O1 { #[cbor(skip)] pub bb: Own<0>, #[cbor(optional)] pub a: Own<1> }
impl Subj for S_S0_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).skipped(), fld(t("a"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S0_O1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S0_O1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S0_O1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S0_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S0_O1 { #[cbor(skip)] pub a: Own<0>, #[cbor(optional)] pub b: Own<1> }
impl Subj for L_S0_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).skipped(), fld(t("b"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S0_O1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S0_O1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S0_O1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S0_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S0_O1(#[cbor(skip)] pub Own<0>, #[cbor(optional)] pub Own<1>);
impl Subj for T_S0_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()).skipped(), fld(NULL, <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S0_O1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S0_O1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S0_O1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S0_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S0_O1 { #[cbor(skip)] pub y: Own<0>, #[cbor(optional)] pub x: Own<1> }
impl Subj for Y_S0_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<0> as Subj>::ty()).skipped(), fld(t("x"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S0_O1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S0_O1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S0_O1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S0_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S0_O2 { #[cbor(skip)] pub bb: Own<0>, #[cbor(optional)] pub a: Own<2> }
impl Subj for S_S0_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).skipped(), fld(t("a"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S0_O2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S0_O2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S0_O2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S0_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S0_P3(#[cbor(skip)] pub Own<0>, pub Own<3>);
impl Subj for T_S0_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()).skipped(), fld(NULL, <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S0_P3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S0_P3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S0_P3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S0_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S0_P3 { #[cbor(skip)] pub y: Own<0>, pub x: Own<3> }
impl Subj for Y_S0_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<0> as Subj>::ty()).skipped(), fld(t("x"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S0_P3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S0_P3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S0_P3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S0_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S0_O3 { #[cbor(skip)] pub bb: Own<0>, #[cbor(optional)] pub a: Own<3> }
impl Subj for S_S0_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).skipped(), fld(t("a"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S0_O3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S0_O3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S0_O3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S0_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S0_O3 { #[cbor(skip)] pub a: Own<0>, #[cbor(optional)] pub b: Own<3> }
impl Subj for L_S0_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).skipped(), fld(t("b"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S0_O3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S0_O3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S0_O3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S0_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S0_S0 { #[cbor(skip)] pub bb: Own<0>, #[cbor(skip)] pub a: Own<0> }
impl Subj for S_S0_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).skipped(), fld(t("a"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S0_S0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S0_S0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S0_S0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S0_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S0_S0(#[cbor(skip)] pub Own<0>, #[cbor(skip)] pub Own<0>);
impl Subj for T_S0_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()).skipped(), fld(NULL, <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S0_S0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S0_S0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S0_S0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S0_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S0_S0 { #[cbor(skip)] pub y: Own<0>, #[cbor(skip)] pub x: Own<0> }
impl Subj for Y_S0_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<0> as Subj>::ty()).skipped(), fld(t("x"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S0_S0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S0_S0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S0_S0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S0_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S0_X0 { #[cbor(skip)] pub bb: Own<0>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_S0_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).skipped(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S0_X0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S0_X0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S0_X0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S0_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S0_X0 { #[cbor(skip)] pub a: Own<0>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub b: u8 }
impl Subj for L_S0_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).skipped(), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S0_X0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S0_X0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S0_X0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S0_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S0_T0(#[cbor(skip)] pub Own<0>, #[cbor(optional)] pub (Own<0>, u8));
impl Subj for T_S0_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()).skipped(), fld(NULL, <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S0_T0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S0_T0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S0_T0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S0_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S0_T0 { #[cbor(skip)] pub y: Own<0>, #[cbor(optional)] pub x: (Own<0>, u8) }
impl Subj for Y_S0_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<0> as Subj>::ty()).skipped(), fld(t("x"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S0_T0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S0_T0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S0_T0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S0_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S0_R0 { #[cbor(skip)] pub bb: Own<0>, #[cbor(rename = 300)] pub a: Own<0> }
impl Subj for S_S0_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).skipped(), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S0_R0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S0_R0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S0_R0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S0_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S0_S1 { #[cbor(skip)] pub bb: Own<0>, #[cbor(skip)] pub a: Own<1> }
impl Subj for S_S0_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).skipped(), fld(t("a"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S0_S1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S0_S1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S0_S1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S0_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S0_S1 { #[cbor(skip)] pub a: Own<0>, #[cbor(skip)] pub b: Own<1> }
impl Subj for L_S0_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).skipped(), fld(t("b"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S0_S1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S0_S1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S0_S1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S0_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S0_S1(#[cbor(skip)] pub Own<0>, #[cbor(skip)] pub Own<1>);
impl Subj for T_S0_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()).skipped(), fld(NULL, <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S0_S1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S0_S1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S0_S1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S0_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S0_S1 { #[cbor(skip)] pub y: Own<0>, #[cbor(skip)] pub x: Own<1> }
impl Subj for Y_S0_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<0> as Subj>::ty()).skipped(), fld(t("x"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S0_S1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S0_S1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S0_S1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S0_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S0_X1 { #[cbor(skip)] pub bb: Own<0>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_S0_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).skipped(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S0_X1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S0_X1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S0_X1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S0_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S0_T1(#[cbor(skip)] pub Own<0>, #[cbor(optional)] pub (Own<1>, u8));
impl Subj for T_S0_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()).skipped(), fld(NULL, <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S0_T1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S0_T1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S0_T1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S0_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S0_T1 { #[cbor(skip)] pub y: Own<0>, #[cbor(optional)] pub x: (Own<1>, u8) }
impl Subj for Y_S0_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<0> as Subj>::ty()).skipped(), fld(t("x"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S0_T1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S0_T1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S0_T1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S0_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S0_R1 { #[cbor(skip)] pub bb: Own<0>, #[cbor(rename = 301)] pub a: Own<1> }
impl Subj for S_S0_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).skipped(), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S0_R1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S0_R1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S0_R1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S0_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S0_R1 { #[cbor(skip)] pub a: Own<0>, #[cbor(rename = 301)] pub b: Own<1> }
impl Subj for L_S0_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).skipped(), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S0_R1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S0_R1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S0_R1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S0_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S0_S2 { #[cbor(skip)] pub bb: Own<0>, #[cbor(skip)] pub a: Own<2> }
impl Subj for S_S0_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).skipped(), fld(t("a"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S0_S2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S0_S2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S0_S2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S0_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S0_S2(#[cbor(skip)] pub Own<0>, #[cbor(skip)] pub Own<2>);
impl Subj for T_S0_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()).skipped(), fld(NULL, <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S0_S2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S0_S2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S0_S2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S0_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S0_S2 { #[cbor(skip)] pub y: Own<0>, #[cbor(skip)] pub x: Own<2> }
impl Subj for Y_S0_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<0> as Subj>::ty()).skipped(), fld(t("x"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S0_S2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S0_S2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S0_S2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S0_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S0_X2 { #[cbor(skip)] pub bb: Own<0>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_S0_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).skipped(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S0_X2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S0_X2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S0_X2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S0_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S0_X2 { #[cbor(skip)] pub a: Own<0>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub b: u8 }
impl Subj for L_S0_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).skipped(), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S0_X2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S0_X2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S0_X2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S0_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S0_T2(#[cbor(skip)] pub Own<0>, #[cbor(optional)] pub (Own<2>, u8));
impl Subj for T_S0_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()).skipped(), fld(NULL, <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S0_T2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S0_T2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S0_T2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S0_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S0_T2 { #[cbor(skip)] pub y: Own<0>, #[cbor(optional)] pub x: (Own<2>, u8) }
impl Subj for Y_S0_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<0> as Subj>::ty()).skipped(), fld(t("x"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S0_T2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S0_T2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S0_T2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S0_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S0_R2 { #[cbor(skip)] pub bb: Own<0>, #[cbor(rename = 302)] pub a: Own<2> }
impl Subj for S_S0_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).skipped(), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S0_R2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S0_R2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S0_R2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S0_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S0_S3 { #[cbor(skip)] pub bb: Own<0>, #[cbor(skip)] pub a: Own<3> }
impl Subj for S_S0_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).skipped(), fld(t("a"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S0_S3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S0_S3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S0_S3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S0_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S0_S3 { #[cbor(skip)] pub a: Own<0>, #[cbor(skip)] pub b: Own<3> }
impl Subj for L_S0_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).skipped(), fld(t("b"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S0_S3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S0_S3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S0_S3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S0_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S0_S3(#[cbor(skip)] pub Own<0>, #[cbor(skip)] pub Own<3>);
impl Subj for T_S0_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()).skipped(), fld(NULL, <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S0_S3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S0_S3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S0_S3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S0_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S0_S3 { #[cbor(skip)] pub y: Own<0>, #[cbor(skip)] pub x: Own<3> }
impl Subj for Y_S0_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<0> as Subj>::ty()).skipped(), fld(t("x"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S0_S3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S0_S3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S0_S3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S0_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S0_X3 { #[cbor(skip)] pub bb: Own<0>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_S0_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).skipped(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S0_X3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S0_X3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S0_X3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S0_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S0_T3(#[cbor(skip)] pub Own<0>, #[cbor(optional)] pub (Own<3>, u8));
impl Subj for T_S0_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()).skipped(), fld(NULL, <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S0_T3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S0_T3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S0_T3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S0_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S0_T3 { #[cbor(skip)] pub y: Own<0>, #[cbor(optional)] pub x: (Own<3>, u8) }
impl Subj for Y_S0_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<0> as Subj>::ty()).skipped(), fld(t("x"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S0_T3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S0_T3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S0_T3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S0_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S0_R3 { #[cbor(skip)] pub bb: Own<0>, #[cbor(rename = 303)] pub a: Own<3> }
impl Subj for S_S0_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<0> as Subj>::ty()).skipped(), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S0_R3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S0_R3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S0_R3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S0_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S0_R3 { #[cbor(skip)] pub a: Own<0>, #[cbor(rename = 303)] pub b: Own<3> }
impl Subj for L_S0_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<0> as Subj>::ty()).skipped(), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S0_R3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S0_R3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S0_R3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S0_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W0_P0 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, pub a: Own<0> }
impl Subj for S_W0_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("a"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W0_P0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W0_P0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W0_P0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W0_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W0_P1 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, pub a: Own<1> }
impl Subj for S_W0_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("a"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W0_P1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W0_P1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W0_P1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W0_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W0_P1 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8, pub b: Own<1> }
impl Subj for L_W0_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("b"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W0_P1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W0_P1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W0_P1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W0_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_W0_P1(#[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8, pub Own<1>);
impl Subj for T_W0_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<0>()), fld(NULL, <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_W0_P1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_W0_P1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_W0_P1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_W0_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_W0_P1 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub y: u8, pub x: Own<1> }
impl Subj for Y_W0_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("x"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_W0_P1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_W0_P1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_W0_P1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_W0_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W0_P2 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, pub a: Own<2> }
impl Subj for S_W0_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("a"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W0_P2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W0_P2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W0_P2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W0_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_W0_O2(#[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8, #[cbor(optional)] pub Own<2>);
impl Subj for T_W0_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<0>()), fld(NULL, <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_W0_O2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_W0_O2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_W0_O2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_W0_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_W0_O2 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub y: u8, #[cbor(optional)] pub x: Own<2> }
impl Subj for Y_W0_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("x"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_W0_O2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_W0_O2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_W0_O2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_W0_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W0_P3 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, pub a: Own<3> }
impl Subj for S_W0_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("a"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W0_P3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W0_P3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W0_P3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W0_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W0_P3 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8, pub b: Own<3> }
impl Subj for L_W0_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("b"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W0_P3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W0_P3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W0_P3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W0_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W0_I0 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<0> }
impl Subj for S_W0_I0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("a"), <Own<0> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W0_I0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W0_I0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W0_I0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W0_I0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W0_W0 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_W0_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W0_W0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W0_W0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W0_W0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W0_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W0_W0 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub b: u8 }
impl Subj for L_W0_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W0_W0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W0_W0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W0_W0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W0_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_W0_X0(#[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8);
impl Subj for T_W0_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<0>()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_W0_X0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_W0_X0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_W0_X0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_W0_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_W0_X0 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub y: u8, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub x: u8 }
impl Subj for Y_W0_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_W0_X0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_W0_X0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_W0_X0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_W0_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W0_T0 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, #[cbor(optional)] pub a: (Own<0>, u8) }
impl Subj for S_W0_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("a"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W0_T0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W0_T0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W0_T0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W0_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W0_I1 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<1> }
impl Subj for S_W0_I1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("a"), <Own<1> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W0_I1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W0_I1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W0_I1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W0_I1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W0_I1 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8, #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<1> }
impl Subj for L_W0_I1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("b"), <Own<1> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W0_I1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W0_I1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W0_I1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W0_I1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W0_W1 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_W0_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W0_W1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W0_W1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W0_W1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W0_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_W0_X1(#[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8);
impl Subj for T_W0_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<0>()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_W0_X1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_W0_X1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_W0_X1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_W0_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_W0_X1 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub y: u8, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub x: u8 }
impl Subj for Y_W0_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_W0_X1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_W0_X1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_W0_X1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_W0_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W0_T1 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, #[cbor(optional)] pub a: (Own<1>, u8) }
impl Subj for S_W0_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("a"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W0_T1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W0_T1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W0_T1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W0_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W0_T1 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8, #[cbor(optional)] pub b: (Own<1>, u8) }
impl Subj for L_W0_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("b"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W0_T1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W0_T1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W0_T1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W0_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W0_I2 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<2> }
impl Subj for S_W0_I2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("a"), <Own<2> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W0_I2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W0_I2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W0_I2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W0_I2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W0_W2 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_W0_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W0_W2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W0_W2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W0_W2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W0_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W0_W2 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub b: u8 }
impl Subj for L_W0_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W0_W2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W0_W2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W0_W2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W0_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_W0_X2(#[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8);
impl Subj for T_W0_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<0>()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_W0_X2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_W0_X2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_W0_X2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_W0_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_W0_X2 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub y: u8, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub x: u8 }
impl Subj for Y_W0_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_W0_X2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_W0_X2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_W0_X2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_W0_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W0_T2 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, #[cbor(optional)] pub a: (Own<2>, u8) }
impl Subj for S_W0_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("a"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W0_T2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W0_T2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W0_T2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W0_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W0_I3 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<3> }
impl Subj for S_W0_I3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("a"), <Own<3> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W0_I3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W0_I3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W0_I3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W0_I3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W0_I3 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8, #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<3> }
impl Subj for L_W0_I3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("b"), <Own<3> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W0_I3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W0_I3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W0_I3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W0_I3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W0_W3 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_W0_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W0_W3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W0_W3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W0_W3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W0_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_W0_X3(#[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8);
impl Subj for T_W0_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<0>()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_W0_X3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_W0_X3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_W0_X3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_W0_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_W0_X3 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub y: u8, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub x: u8 }
impl Subj for Y_W0_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_W0_X3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_W0_X3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_W0_X3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_W0_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W0_T3 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, #[cbor(optional)] pub a: (Own<3>, u8) }
impl Subj for S_W0_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("a"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W0_T3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W0_T3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W0_T3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W0_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W0_T3 { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8, #[cbor(optional)] pub b: (Own<3>, u8) }
impl Subj for L_W0_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("b"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W0_T3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W0_T3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W0_T3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W0_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X0_O0 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, #[cbor(optional)] pub a: Own<0> }
impl Subj for S_X0_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("a"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X0_O0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X0_O0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X0_O0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X0_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X0_O0 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8, #[cbor(optional)] pub b: Own<0> }
impl Subj for L_X0_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("b"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X0_O0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X0_O0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X0_O0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X0_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X0_O0(#[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8, #[cbor(optional)] pub Own<0>);
impl Subj for T_X0_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(NULL, <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X0_O0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X0_O0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X0_O0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X0_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X0_O0 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub y: u8, #[cbor(optional)] pub x: Own<0> }
impl Subj for Y_X0_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("x"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X0_O0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X0_O0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X0_O0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X0_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X0_O1 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, #[cbor(optional)] pub a: Own<1> }
impl Subj for S_X0_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("a"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X0_O1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X0_O1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X0_O1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X0_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X0_P2(#[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8, pub Own<2>);
impl Subj for T_X0_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(NULL, <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X0_P2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X0_P2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X0_P2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X0_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X0_P2 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub y: u8, pub x: Own<2> }
impl Subj for Y_X0_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("x"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X0_P2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X0_P2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X0_P2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X0_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X0_O2 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, #[cbor(optional)] pub a: Own<2> }
impl Subj for S_X0_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("a"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X0_O2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X0_O2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X0_O2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X0_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X0_O2 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8, #[cbor(optional)] pub b: Own<2> }
impl Subj for L_X0_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("b"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X0_O2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X0_O2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X0_O2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X0_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X0_O3 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, #[cbor(optional)] pub a: Own<3> }
impl Subj for S_X0_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("a"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X0_O3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X0_O3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X0_O3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X0_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X0_O3(#[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8, #[cbor(optional)] pub Own<3>);
impl Subj for T_X0_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(NULL, <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X0_O3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X0_O3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X0_O3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X0_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X0_O3 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub y: u8, #[cbor(optional)] pub x: Own<3> }
impl Subj for Y_X0_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("x"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X0_O3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X0_O3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X0_O3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X0_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X0_S0 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, #[cbor(skip)] pub a: Own<0> }
impl Subj for S_X0_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("a"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X0_S0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X0_S0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X0_S0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X0_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X0_S0 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8, #[cbor(skip)] pub b: Own<0> }
impl Subj for L_X0_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("b"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X0_S0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X0_S0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X0_S0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X0_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X0_W0(#[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8);
impl Subj for T_X0_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(NULL, <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X0_W0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X0_W0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X0_W0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X0_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X0_W0 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub y: u8, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub x: u8 }
impl Subj for Y_X0_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("x"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X0_W0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X0_W0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X0_W0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X0_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X0_X0 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_X0_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X0_X0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X0_X0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X0_X0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X0_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X0_R0 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, #[cbor(rename = 300)] pub a: Own<0> }
impl Subj for S_X0_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X0_R0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X0_R0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X0_R0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X0_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X0_R0 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8, #[cbor(rename = 300)] pub b: Own<0> }
impl Subj for L_X0_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X0_R0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X0_R0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X0_R0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X0_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X0_R0(#[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8, #[cbor(rename = 300)] pub Own<0>);
impl Subj for T_X0_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X0_R0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X0_R0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X0_R0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X0_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X0_R0 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub y: u8, #[cbor(rename = 300)] pub x: Own<0> }
impl Subj for Y_X0_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X0_R0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X0_R0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X0_R0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X0_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X0_S1 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, #[cbor(skip)] pub a: Own<1> }
impl Subj for S_X0_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("a"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X0_S1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X0_S1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X0_S1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X0_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X0_W1(#[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8);
impl Subj for T_X0_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(NULL, <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X0_W1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X0_W1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X0_W1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X0_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X0_W1 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub y: u8, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub x: u8 }
impl Subj for Y_X0_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("x"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X0_W1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X0_W1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X0_W1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X0_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X0_X1 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_X0_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X0_X1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X0_X1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X0_X1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X0_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X0_X1 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub b: u8 }
impl Subj for L_X0_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X0_X1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X0_X1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X0_X1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X0_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X0_R1 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, #[cbor(rename = 301)] pub a: Own<1> }
impl Subj for S_X0_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X0_R1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X0_R1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X0_R1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X0_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X0_R1(#[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8, #[cbor(rename = 301)] pub Own<1>);
impl Subj for T_X0_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X0_R1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X0_R1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X0_R1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X0_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X0_R1 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub y: u8, #[cbor(rename = 301)] pub x: Own<1> }
impl Subj for Y_X0_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X0_R1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X0_R1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X0_R1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X0_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X0_S2 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, #[cbor(skip)] pub a: Own<2> }
impl Subj for S_X0_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("a"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X0_S2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X0_S2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X0_S2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X0_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X0_S2 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8, #[cbor(skip)] pub b: Own<2> }
impl Subj for L_X0_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("b"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X0_S2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X0_S2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X0_S2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X0_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X0_W2(#[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8);
impl Subj for T_X0_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(NULL, <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X0_W2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X0_W2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X0_W2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X0_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X0_W2 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub y: u8, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub x: u8 }
impl Subj for Y_X0_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("x"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X0_W2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X0_W2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X0_W2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X0_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X0_X2 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_X0_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X0_X2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X0_X2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X0_X2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X0_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X0_R2 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, #[cbor(rename = 302)] pub a: Own<2> }
impl Subj for S_X0_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X0_R2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X0_R2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X0_R2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X0_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X0_R2 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8, #[cbor(rename = 302)] pub b: Own<2> }
impl Subj for L_X0_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X0_R2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X0_R2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X0_R2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X0_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X0_R2(#[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8, #[cbor(rename = 302)] pub Own<2>);
impl Subj for T_X0_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X0_R2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X0_R2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X0_R2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X0_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X0_R2 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub y: u8, #[cbor(rename = 302)] pub x: Own<2> }
impl Subj for Y_X0_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X0_R2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X0_R2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X0_R2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X0_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X0_S3 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, #[cbor(skip)] pub a: Own<3> }
impl Subj for S_X0_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("a"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X0_S3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X0_S3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X0_S3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X0_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X0_W3(#[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8);
impl Subj for T_X0_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(NULL, <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X0_W3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X0_W3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X0_W3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X0_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X0_W3 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub y: u8, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub x: u8 }
impl Subj for Y_X0_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("x"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X0_W3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X0_W3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X0_W3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X0_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X0_X3 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_X0_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X0_X3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X0_X3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X0_X3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X0_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X0_X3 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub b: u8 }
impl Subj for L_X0_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X0_X3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X0_X3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X0_X3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X0_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X0_R3 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub bb: u8, #[cbor(rename = 303)] pub a: Own<3> }
impl Subj for S_X0_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X0_R3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X0_R3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X0_R3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X0_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X0_R3(#[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8, #[cbor(rename = 303)] pub Own<3>);
impl Subj for T_X0_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X0_R3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X0_R3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X0_R3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X0_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X0_R3 { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub y: u8, #[cbor(rename = 303)] pub x: Own<3> }
impl Subj for Y_X0_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X0_R3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X0_R3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X0_R3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X0_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T0_P0 { #[cbor(optional)] pub bb: (Own<0>, u8), pub a: Own<0> }
impl Subj for S_T0_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T0_P0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T0_P0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T0_P0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T0_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T0_P0 { #[cbor(optional)] pub a: (Own<0>, u8), pub b: Own<0> }
impl Subj for L_T0_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("b"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T0_P0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T0_P0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T0_P0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T0_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T0_P0(#[cbor(optional)] pub (Own<0>, u8), pub Own<0>);
impl Subj for T_T0_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<0>, u8) as Subj>::ty()).opt(), fld(NULL, <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T0_P0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T0_P0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T0_P0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T0_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T0_P0 { #[cbor(optional)] pub y: (Own<0>, u8), pub x: Own<0> }
impl Subj for Y_T0_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("x"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T0_P0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T0_P0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T0_P0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T0_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T0_P1 { #[cbor(optional)] pub bb: (Own<0>, u8), pub a: Own<1> }
impl Subj for S_T0_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T0_P1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T0_P1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T0_P1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T0_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T0_O1(#[cbor(optional)] pub (Own<0>, u8), #[cbor(optional)] pub Own<1>);
impl Subj for T_T0_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<0>, u8) as Subj>::ty()).opt(), fld(NULL, <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T0_O1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T0_O1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T0_O1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T0_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T0_O1 { #[cbor(optional)] pub y: (Own<0>, u8), #[cbor(optional)] pub x: Own<1> }
impl Subj for Y_T0_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("x"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T0_O1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T0_O1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T0_O1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T0_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T0_P2 { #[cbor(optional)] pub bb: (Own<0>, u8), pub a: Own<2> }
impl Subj for S_T0_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T0_P2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T0_P2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T0_P2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T0_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T0_P2 { #[cbor(optional)] pub a: (Own<0>, u8), pub b: Own<2> }
impl Subj for L_T0_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("b"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T0_P2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T0_P2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T0_P2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T0_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T0_P3 { #[cbor(optional)] pub bb: (Own<0>, u8), pub a: Own<3> }
impl Subj for S_T0_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T0_P3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T0_P3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T0_P3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T0_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T0_P3(#[cbor(optional)] pub (Own<0>, u8), pub Own<3>);
impl Subj for T_T0_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<0>, u8) as Subj>::ty()).opt(), fld(NULL, <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T0_P3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T0_P3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T0_P3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T0_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T0_P3 { #[cbor(optional)] pub y: (Own<0>, u8), pub x: Own<3> }
impl Subj for Y_T0_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("x"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T0_P3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T0_P3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T0_P3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T0_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T0_I0 { #[cbor(optional)] pub bb: (Own<0>, u8), #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<0> }
impl Subj for S_T0_I0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<0> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T0_I0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T0_I0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T0_I0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T0_I0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T0_I0 { #[cbor(optional)] pub a: (Own<0>, u8), #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<0> }
impl Subj for L_T0_I0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("b"), <Own<0> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T0_I0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T0_I0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T0_I0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T0_I0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T0_S0(#[cbor(optional)] pub (Own<0>, u8), #[cbor(skip)] pub Own<0>);
impl Subj for T_T0_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<0>, u8) as Subj>::ty()).opt(), fld(NULL, <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T0_S0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T0_S0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T0_S0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T0_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T0_S0 { #[cbor(optional)] pub y: (Own<0>, u8), #[cbor(skip)] pub x: Own<0> }
impl Subj for Y_T0_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("x"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T0_S0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T0_S0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T0_S0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T0_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T0_W0 { #[cbor(optional)] pub bb: (Own<0>, u8), #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_T0_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T0_W0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T0_W0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T0_W0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T0_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T0_T0 { #[cbor(optional)] pub bb: (Own<0>, u8), #[cbor(optional)] pub a: (Own<0>, u8) }
impl Subj for S_T0_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("a"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T0_T0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T0_T0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T0_T0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T0_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T0_T0 { #[cbor(optional)] pub a: (Own<0>, u8), #[cbor(optional)] pub b: (Own<0>, u8) }
impl Subj for L_T0_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("b"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T0_T0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T0_T0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T0_T0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T0_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T0_T0(#[cbor(optional)] pub (Own<0>, u8), #[cbor(optional)] pub (Own<0>, u8));
impl Subj for T_T0_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<0>, u8) as Subj>::ty()).opt(), fld(NULL, <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T0_T0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T0_T0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T0_T0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T0_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T0_T0 { #[cbor(optional)] pub y: (Own<0>, u8), #[cbor(optional)] pub x: (Own<0>, u8) }
impl Subj for Y_T0_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("x"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T0_T0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T0_T0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T0_T0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T0_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T0_I1 { #[cbor(optional)] pub bb: (Own<0>, u8), #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<1> }
impl Subj for S_T0_I1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<1> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T0_I1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T0_I1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T0_I1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T0_I1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T0_S1(#[cbor(optional)] pub (Own<0>, u8), #[cbor(skip)] pub Own<1>);
impl Subj for T_T0_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<0>, u8) as Subj>::ty()).opt(), fld(NULL, <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T0_S1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T0_S1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T0_S1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T0_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T0_S1 { #[cbor(optional)] pub y: (Own<0>, u8), #[cbor(skip)] pub x: Own<1> }
impl Subj for Y_T0_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("x"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T0_S1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T0_S1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T0_S1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T0_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T0_W1 { #[cbor(optional)] pub bb: (Own<0>, u8), #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_T0_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T0_W1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T0_W1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T0_W1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T0_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T0_W1 { #[cbor(optional)] pub a: (Own<0>, u8), #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub b: u8 }
impl Subj for L_T0_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T0_W1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T0_W1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T0_W1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T0_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T0_T1 { #[cbor(optional)] pub bb: (Own<0>, u8), #[cbor(optional)] pub a: (Own<1>, u8) }
impl Subj for S_T0_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("a"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T0_T1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T0_T1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T0_T1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T0_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T0_T1(#[cbor(optional)] pub (Own<0>, u8), #[cbor(optional)] pub (Own<1>, u8));
impl Subj for T_T0_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<0>, u8) as Subj>::ty()).opt(), fld(NULL, <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T0_T1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T0_T1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T0_T1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T0_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T0_T1 { #[cbor(optional)] pub y: (Own<0>, u8), #[cbor(optional)] pub x: (Own<1>, u8) }
impl Subj for Y_T0_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("x"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T0_T1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T0_T1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T0_T1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T0_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T0_I2 { #[cbor(optional)] pub bb: (Own<0>, u8), #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<2> }
impl Subj for S_T0_I2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<2> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T0_I2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T0_I2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T0_I2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T0_I2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T0_I2 { #[cbor(optional)] pub a: (Own<0>, u8), #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<2> }
impl Subj for L_T0_I2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("b"), <Own<2> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T0_I2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T0_I2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T0_I2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T0_I2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T0_S2(#[cbor(optional)] pub (Own<0>, u8), #[cbor(skip)] pub Own<2>);
impl Subj for T_T0_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<0>, u8) as Subj>::ty()).opt(), fld(NULL, <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T0_S2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T0_S2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T0_S2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T0_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T0_S2 { #[cbor(optional)] pub y: (Own<0>, u8), #[cbor(skip)] pub x: Own<2> }
impl Subj for Y_T0_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("x"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T0_S2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T0_S2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T0_S2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T0_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T0_W2 { #[cbor(optional)] pub bb: (Own<0>, u8), #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_T0_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T0_W2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T0_W2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T0_W2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T0_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T0_T2 { #[cbor(optional)] pub bb: (Own<0>, u8), #[cbor(optional)] pub a: (Own<2>, u8) }
impl Subj for S_T0_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("a"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T0_T2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T0_T2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T0_T2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T0_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T0_T2 { #[cbor(optional)] pub a: (Own<0>, u8), #[cbor(optional)] pub b: (Own<2>, u8) }
impl Subj for L_T0_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("b"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T0_T2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T0_T2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T0_T2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T0_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T0_T2(#[cbor(optional)] pub (Own<0>, u8), #[cbor(optional)] pub (Own<2>, u8));
impl Subj for T_T0_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<0>, u8) as Subj>::ty()).opt(), fld(NULL, <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T0_T2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T0_T2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T0_T2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T0_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T0_T2 { #[cbor(optional)] pub y: (Own<0>, u8), #[cbor(optional)] pub x: (Own<2>, u8) }
impl Subj for Y_T0_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("x"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T0_T2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T0_T2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T0_T2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T0_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T0_I3 { #[cbor(optional)] pub bb: (Own<0>, u8), #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<3> }
impl Subj for S_T0_I3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<3> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T0_I3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T0_I3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T0_I3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T0_I3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T0_S3(#[cbor(optional)] pub (Own<0>, u8), #[cbor(skip)] pub Own<3>);
impl Subj for T_T0_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<0>, u8) as Subj>::ty()).opt(), fld(NULL, <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T0_S3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T0_S3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T0_S3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T0_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T0_S3 { #[cbor(optional)] pub y: (Own<0>, u8), #[cbor(skip)] pub x: Own<3> }
impl Subj for Y_T0_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("x"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T0_S3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T0_S3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T0_S3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T0_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T0_W3 { #[cbor(optional)] pub bb: (Own<0>, u8), #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_T0_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T0_W3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T0_W3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T0_W3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T0_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T0_W3 { #[cbor(optional)] pub a: (Own<0>, u8), #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub b: u8 }
impl Subj for L_T0_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T0_W3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T0_W3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T0_W3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T0_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T0_T3 { #[cbor(optional)] pub bb: (Own<0>, u8), #[cbor(optional)] pub a: (Own<3>, u8) }
impl Subj for S_T0_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("a"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T0_T3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T0_T3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T0_T3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T0_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T0_T3(#[cbor(optional)] pub (Own<0>, u8), #[cbor(optional)] pub (Own<3>, u8));
impl Subj for T_T0_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<0>, u8) as Subj>::ty()).opt(), fld(NULL, <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T0_T3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T0_T3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T0_T3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T0_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T0_T3 { #[cbor(optional)] pub y: (Own<0>, u8), #[cbor(optional)] pub x: (Own<3>, u8) }
impl Subj for Y_T0_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("x"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T0_T3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T0_T3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T0_T3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T0_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R0_O0 { #[cbor(rename = 300)] pub bb: Own<0>, #[cbor(optional)] pub a: Own<0> }
impl Subj for S_R0_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("a"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R0_O0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R0_O0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R0_O0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R0_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_R0_P1(#[cbor(rename = 300)] pub Own<0>, pub Own<1>);
impl Subj for T_R0_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(NULL, <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_R0_P1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_R0_P1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_R0_P1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_R0_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_R0_P1 { #[cbor(rename = 300)] pub y: Own<0>, pub x: Own<1> }
impl Subj for Y_R0_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("x"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_R0_P1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_R0_P1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_R0_P1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_R0_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R0_O1 { #[cbor(rename = 300)] pub bb: Own<0>, #[cbor(optional)] pub a: Own<1> }
impl Subj for S_R0_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("a"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R0_O1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R0_O1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R0_O1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R0_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R0_O1 { #[cbor(rename = 300)] pub a: Own<0>, #[cbor(optional)] pub b: Own<1> }
impl Subj for L_R0_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("b"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R0_O1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R0_O1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R0_O1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R0_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R0_O2 { #[cbor(rename = 300)] pub bb: Own<0>, #[cbor(optional)] pub a: Own<2> }
impl Subj for S_R0_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("a"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R0_O2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R0_O2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R0_O2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R0_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_R0_O2(#[cbor(rename = 300)] pub Own<0>, #[cbor(optional)] pub Own<2>);
impl Subj for T_R0_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(NULL, <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_R0_O2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_R0_O2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_R0_O2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_R0_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_R0_O2 { #[cbor(rename = 300)] pub y: Own<0>, #[cbor(optional)] pub x: Own<2> }
impl Subj for Y_R0_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("x"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_R0_O2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_R0_O2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_R0_O2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_R0_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R0_O3 { #[cbor(rename = 300)] pub bb: Own<0>, #[cbor(optional)] pub a: Own<3> }
impl Subj for S_R0_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("a"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R0_O3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R0_O3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R0_O3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R0_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R0_O3 { #[cbor(rename = 300)] pub a: Own<0>, #[cbor(optional)] pub b: Own<3> }
impl Subj for L_R0_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("b"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R0_O3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R0_O3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R0_O3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R0_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R0_S0 { #[cbor(rename = 300)] pub bb: Own<0>, #[cbor(skip)] pub a: Own<0> }
impl Subj for S_R0_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("a"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R0_S0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R0_S0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R0_S0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R0_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R0_X0 { #[cbor(rename = 300)] pub bb: Own<0>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_R0_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R0_X0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R0_X0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R0_X0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R0_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R0_X0 { #[cbor(rename = 300)] pub a: Own<0>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub b: u8 }
impl Subj for L_R0_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R0_X0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R0_X0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R0_X0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R0_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_R0_X0(#[cbor(rename = 300)] pub Own<0>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8);
impl Subj for T_R0_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_R0_X0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_R0_X0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_R0_X0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_R0_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_R0_X0 { #[cbor(rename = 300)] pub y: Own<0>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub x: u8 }
impl Subj for Y_R0_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_R0_X0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_R0_X0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_R0_X0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_R0_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R0_R0 { #[cbor(rename = 300)] pub bb: Own<0>, pub a: Own<1> }
impl Subj for S_R0_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("a"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R0_R0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R0_R0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R0_R0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R0_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R0_S1 { #[cbor(rename = 300)] pub bb: Own<0>, #[cbor(skip)] pub a: Own<1> }
impl Subj for S_R0_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("a"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R0_S1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R0_S1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R0_S1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R0_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R0_S1 { #[cbor(rename = 300)] pub a: Own<0>, #[cbor(skip)] pub b: Own<1> }
impl Subj for L_R0_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("b"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R0_S1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R0_S1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R0_S1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R0_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R0_X1 { #[cbor(rename = 300)] pub bb: Own<0>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_R0_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R0_X1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R0_X1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R0_X1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R0_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_R0_X1(#[cbor(rename = 300)] pub Own<0>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8);
impl Subj for T_R0_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_R0_X1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_R0_X1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_R0_X1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_R0_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_R0_X1 { #[cbor(rename = 300)] pub y: Own<0>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub x: u8 }
impl Subj for Y_R0_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_R0_X1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_R0_X1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_R0_X1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_R0_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R0_R1 { #[cbor(rename = 300)] pub bb: Own<0>, #[cbor(rename = 301)] pub a: Own<1> }
impl Subj for S_R0_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R0_R1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R0_R1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R0_R1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R0_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R0_R1 { #[cbor(rename = 300)] pub a: Own<0>, #[cbor(rename = 301)] pub b: Own<1> }
impl Subj for L_R0_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R0_R1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R0_R1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R0_R1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R0_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R0_S2 { #[cbor(rename = 300)] pub bb: Own<0>, #[cbor(skip)] pub a: Own<2> }
impl Subj for S_R0_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("a"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R0_S2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R0_S2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R0_S2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R0_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R0_X2 { #[cbor(rename = 300)] pub bb: Own<0>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_R0_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R0_X2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R0_X2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R0_X2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R0_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R0_X2 { #[cbor(rename = 300)] pub a: Own<0>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub b: u8 }
impl Subj for L_R0_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R0_X2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R0_X2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R0_X2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R0_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_R0_X2(#[cbor(rename = 300)] pub Own<0>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8);
impl Subj for T_R0_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_R0_X2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_R0_X2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_R0_X2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_R0_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_R0_X2 { #[cbor(rename = 300)] pub y: Own<0>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub x: u8 }
impl Subj for Y_R0_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_R0_X2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_R0_X2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_R0_X2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_R0_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R0_R2 { #[cbor(rename = 300)] pub bb: Own<0>, #[cbor(rename = 302)] pub a: Own<2> }
impl Subj for S_R0_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R0_R2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R0_R2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R0_R2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R0_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R0_S3 { #[cbor(rename = 300)] pub bb: Own<0>, #[cbor(skip)] pub a: Own<3> }
impl Subj for S_R0_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("a"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R0_S3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R0_S3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R0_S3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R0_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R0_S3 { #[cbor(rename = 300)] pub a: Own<0>, #[cbor(skip)] pub b: Own<3> }
impl Subj for L_R0_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("b"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R0_S3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R0_S3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R0_S3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R0_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R0_X3 { #[cbor(rename = 300)] pub bb: Own<0>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_R0_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R0_X3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R0_X3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R0_X3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R0_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_R0_X3(#[cbor(rename = 300)] pub Own<0>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8);
impl Subj for T_R0_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_R0_X3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_R0_X3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_R0_X3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_R0_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_R0_X3 { #[cbor(rename = 300)] pub y: Own<0>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub x: u8 }
impl Subj for Y_R0_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_R0_X3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_R0_X3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_R0_X3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_R0_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R0_R3 { #[cbor(rename = 300)] pub bb: Own<0>, #[cbor(rename = 303)] pub a: Own<3> }
impl Subj for S_R0_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R0_R3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R0_R3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R0_R3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R0_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R0_R3 { #[cbor(rename = 300)] pub a: Own<0>, #[cbor(rename = 303)] pub b: Own<3> }
impl Subj for L_R0_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R0_R3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R0_R3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R0_R3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R0_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I1_P0 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<1>, pub a: Own<0> }
impl Subj for S_I1_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I1_P0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I1_P0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I1_P0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I1_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I1_P1 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<1>, pub a: Own<1> }
impl Subj for S_I1_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I1_P1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I1_P1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I1_P1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I1_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I1_P1 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<1>, pub b: Own<1> }
impl Subj for L_I1_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I1_P1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I1_P1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I1_P1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I1_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I1_P2 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<1>, pub a: Own<2> }
impl Subj for S_I1_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I1_P2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I1_P2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I1_P2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I1_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I1_P3 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<1>, pub a: Own<3> }
impl Subj for S_I1_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I1_P3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I1_P3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I1_P3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I1_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I1_P3 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<1>, pub b: Own<3> }
impl Subj for L_I1_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I1_P3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I1_P3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I1_P3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I1_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I1_I0 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<1>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<0> }
impl Subj for S_I1_I0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<0> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I1_I0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I1_I0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I1_I0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I1_I0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I1_W0 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<1>, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_I1_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I1_W0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I1_W0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I1_W0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I1_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I1_W0 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<1>, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub b: u8 }
impl Subj for L_I1_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I1_W0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I1_W0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I1_W0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I1_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I1_T0 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<1>, #[cbor(optional)] pub a: (Own<0>, u8) }
impl Subj for S_I1_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I1_T0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I1_T0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I1_T0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I1_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I1_I1 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<1>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<1> }
impl Subj for S_I1_I1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<1> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I1_I1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I1_I1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I1_I1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I1_I1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I1_I1 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<1>, #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<1> }
impl Subj for L_I1_I1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <Own<1> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I1_I1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I1_I1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I1_I1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I1_I1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I1_W1 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<1>, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_I1_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I1_W1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I1_W1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I1_W1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I1_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I1_T1 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<1>, #[cbor(optional)] pub a: (Own<1>, u8) }
impl Subj for S_I1_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I1_T1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I1_T1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I1_T1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I1_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I1_T1 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<1>, #[cbor(optional)] pub b: (Own<1>, u8) }
impl Subj for L_I1_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I1_T1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I1_T1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I1_T1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I1_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I1_I2 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<1>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<2> }
impl Subj for S_I1_I2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<2> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I1_I2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I1_I2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I1_I2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I1_I2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I1_W2 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<1>, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_I1_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I1_W2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I1_W2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I1_W2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I1_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I1_W2 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<1>, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub b: u8 }
impl Subj for L_I1_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I1_W2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I1_W2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I1_W2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I1_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I1_T2 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<1>, #[cbor(optional)] pub a: (Own<2>, u8) }
impl Subj for S_I1_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I1_T2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I1_T2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I1_T2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I1_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I1_I3 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<1>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<3> }
impl Subj for S_I1_I3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<3> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I1_I3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I1_I3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I1_I3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I1_I3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I1_I3 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<1>, #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<3> }
impl Subj for L_I1_I3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <Own<3> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I1_I3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I1_I3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I1_I3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I1_I3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I1_W3 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<1>, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_I1_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I1_W3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I1_W3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I1_W3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I1_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I1_T3 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<1>, #[cbor(optional)] pub a: (Own<3>, u8) }
impl Subj for S_I1_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I1_T3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I1_T3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I1_T3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I1_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I1_T3 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<1>, #[cbor(optional)] pub b: (Own<3>, u8) }
impl Subj for L_I1_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I1_T3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I1_T3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I1_T3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I1_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S1_P0(#[cbor(skip)] pub Own<1>, pub Own<0>);
impl Subj for T_S1_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()).skipped(), fld(NULL, <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S1_P0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S1_P0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S1_P0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S1_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S1_P0 { #[cbor(skip)] pub y: Own<1>, pub x: Own<0> }
impl Subj for Y_S1_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()).skipped(), fld(t("x"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S1_P0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S1_P0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S1_P0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S1_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S1_O0 { #[cbor(skip)] pub bb: Own<1>, #[cbor(optional)] pub a: Own<0> }
impl Subj for S_S1_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).skipped(), fld(t("a"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S1_O0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S1_O0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S1_O0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S1_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S1_O0 { #[cbor(skip)] pub a: Own<1>, #[cbor(optional)] pub b: Own<0> }
impl Subj for L_S1_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).skipped(), fld(t("b"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S1_O0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S1_O0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S1_O0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S1_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S1_O1 { #[cbor(skip)] pub bb: Own<1>, #[cbor(optional)] pub a: Own<1> }
impl Subj for S_S1_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).skipped(), fld(t("a"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S1_O1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S1_O1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S1_O1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S1_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S1_O1(#[cbor(skip)] pub Own<1>, #[cbor(optional)] pub Own<1>);
impl Subj for T_S1_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()).skipped(), fld(NULL, <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S1_O1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S1_O1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S1_O1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S1_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S1_O1 { #[cbor(skip)] pub y: Own<1>, #[cbor(optional)] pub x: Own<1> }
impl Subj for Y_S1_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()).skipped(), fld(t("x"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S1_O1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S1_O1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S1_O1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S1_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S1_O2 { #[cbor(skip)] pub bb: Own<1>, #[cbor(optional)] pub a: Own<2> }
impl Subj for S_S1_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).skipped(), fld(t("a"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S1_O2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S1_O2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S1_O2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S1_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S1_O2 { #[cbor(skip)] pub a: Own<1>, #[cbor(optional)] pub b: Own<2> }
impl Subj for L_S1_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).skipped(), fld(t("b"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S1_O2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S1_O2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S1_O2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S1_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S1_P3(#[cbor(skip)] pub Own<1>, pub Own<3>);
impl Subj for T_S1_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()).skipped(), fld(NULL, <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S1_P3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S1_P3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S1_P3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S1_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S1_P3 { #[cbor(skip)] pub y: Own<1>, pub x: Own<3> }
impl Subj for Y_S1_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()).skipped(), fld(t("x"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S1_P3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S1_P3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S1_P3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S1_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S1_O3 { #[cbor(skip)] pub bb: Own<1>, #[cbor(optional)] pub a: Own<3> }
impl Subj for S_S1_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).skipped(), fld(t("a"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S1_O3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S1_O3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S1_O3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S1_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S1_S0 { #[cbor(skip)] pub bb: Own<1>, #[cbor(skip)] pub a: Own<0> }
impl Subj for S_S1_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).skipped(), fld(t("a"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S1_S0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S1_S0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S1_S0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S1_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S1_S0 { #[cbor(skip)] pub a: Own<1>, #[cbor(skip)] pub b: Own<0> }
impl Subj for L_S1_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).skipped(), fld(t("b"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S1_S0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S1_S0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S1_S0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S1_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S1_S0(#[cbor(skip)] pub Own<1>, #[cbor(skip)] pub Own<0>);
impl Subj for T_S1_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()).skipped(), fld(NULL, <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S1_S0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S1_S0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S1_S0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S1_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S1_S0 { #[cbor(skip)] pub y: Own<1>, #[cbor(skip)] pub x: Own<0> }
impl Subj for Y_S1_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()).skipped(), fld(t("x"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S1_S0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S1_S0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S1_S0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S1_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S1_X0 { #[cbor(skip)] pub bb: Own<1>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_S1_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).skipped(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S1_X0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S1_X0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S1_X0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S1_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S1_T0(#[cbor(skip)] pub Own<1>, #[cbor(optional)] pub (Own<0>, u8));
impl Subj for T_S1_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()).skipped(), fld(NULL, <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S1_T0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S1_T0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S1_T0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S1_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S1_T0 { #[cbor(skip)] pub y: Own<1>, #[cbor(optional)] pub x: (Own<0>, u8) }
impl Subj for Y_S1_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()).skipped(), fld(t("x"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S1_T0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S1_T0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S1_T0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S1_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S1_R0 { #[cbor(skip)] pub bb: Own<1>, #[cbor(rename = 300)] pub a: Own<0> }
impl Subj for S_S1_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).skipped(), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S1_R0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S1_R0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S1_R0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S1_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S1_R0 { #[cbor(skip)] pub a: Own<1>, #[cbor(rename = 300)] pub b: Own<0> }
impl Subj for L_S1_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).skipped(), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S1_R0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S1_R0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S1_R0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S1_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S1_S1 { #[cbor(skip)] pub bb: Own<1>, #[cbor(skip)] pub a: Own<1> }
impl Subj for S_S1_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).skipped(), fld(t("a"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S1_S1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S1_S1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S1_S1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S1_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S1_S1(#[cbor(skip)] pub Own<1>, #[cbor(skip)] pub Own<1>);
impl Subj for T_S1_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()).skipped(), fld(NULL, <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S1_S1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S1_S1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S1_S1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S1_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S1_S1 { #[cbor(skip)] pub y: Own<1>, #[cbor(skip)] pub x: Own<1> }
impl Subj for Y_S1_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()).skipped(), fld(t("x"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S1_S1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S1_S1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S1_S1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S1_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S1_X1 { #[cbor(skip)] pub bb: Own<1>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_S1_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).skipped(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S1_X1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S1_X1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S1_X1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S1_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S1_X1 { #[cbor(skip)] pub a: Own<1>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub b: u8 }
impl Subj for L_S1_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).skipped(), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S1_X1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S1_X1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S1_X1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S1_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S1_T1(#[cbor(skip)] pub Own<1>, #[cbor(optional)] pub (Own<1>, u8));
impl Subj for T_S1_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()).skipped(), fld(NULL, <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S1_T1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S1_T1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S1_T1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S1_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S1_T1 { #[cbor(skip)] pub y: Own<1>, #[cbor(optional)] pub x: (Own<1>, u8) }
impl Subj for Y_S1_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()).skipped(), fld(t("x"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S1_T1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S1_T1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S1_T1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S1_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S1_R1 { #[cbor(skip)] pub bb: Own<1>, #[cbor(rename = 301)] pub a: Own<1> }
impl Subj for S_S1_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).skipped(), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S1_R1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S1_R1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S1_R1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S1_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S1_S2 { #[cbor(skip)] pub bb: Own<1>, #[cbor(skip)] pub a: Own<2> }
impl Subj for S_S1_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).skipped(), fld(t("a"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S1_S2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S1_S2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S1_S2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S1_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S1_S2 { #[cbor(skip)] pub a: Own<1>, #[cbor(skip)] pub b: Own<2> }
impl Subj for L_S1_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).skipped(), fld(t("b"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S1_S2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S1_S2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S1_S2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S1_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S1_S2(#[cbor(skip)] pub Own<1>, #[cbor(skip)] pub Own<2>);
impl Subj for T_S1_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()).skipped(), fld(NULL, <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S1_S2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S1_S2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S1_S2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S1_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S1_S2 { #[cbor(skip)] pub y: Own<1>, #[cbor(skip)] pub x: Own<2> }
impl Subj for Y_S1_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()).skipped(), fld(t("x"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S1_S2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S1_S2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S1_S2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S1_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S1_X2 { #[cbor(skip)] pub bb: Own<1>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_S1_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).skipped(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S1_X2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S1_X2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S1_X2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S1_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S1_T2(#[cbor(skip)] pub Own<1>, #[cbor(optional)] pub (Own<2>, u8));
impl Subj for T_S1_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()).skipped(), fld(NULL, <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S1_T2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S1_T2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S1_T2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S1_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S1_T2 { #[cbor(skip)] pub y: Own<1>, #[cbor(optional)] pub x: (Own<2>, u8) }
impl Subj for Y_S1_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()).skipped(), fld(t("x"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S1_T2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S1_T2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S1_T2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S1_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S1_R2 { #[cbor(skip)] pub bb: Own<1>, #[cbor(rename = 302)] pub a: Own<2> }
impl Subj for S_S1_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).skipped(), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S1_R2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S1_R2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S1_R2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S1_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S1_R2 { #[cbor(skip)] pub a: Own<1>, #[cbor(rename = 302)] pub b: Own<2> }
impl Subj for L_S1_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).skipped(), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S1_R2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S1_R2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S1_R2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S1_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S1_S3 { #[cbor(skip)] pub bb: Own<1>, #[cbor(skip)] pub a: Own<3> }
impl Subj for S_S1_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).skipped(), fld(t("a"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S1_S3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S1_S3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S1_S3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S1_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S1_S3(#[cbor(skip)] pub Own<1>, #[cbor(skip)] pub Own<3>);
impl Subj for T_S1_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()).skipped(), fld(NULL, <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S1_S3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S1_S3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S1_S3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S1_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S1_S3 { #[cbor(skip)] pub y: Own<1>, #[cbor(skip)] pub x: Own<3> }
impl Subj for Y_S1_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()).skipped(), fld(t("x"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S1_S3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S1_S3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S1_S3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S1_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S1_X3 { #[cbor(skip)] pub bb: Own<1>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_S1_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).skipped(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S1_X3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S1_X3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S1_X3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S1_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S1_X3 { #[cbor(skip)] pub a: Own<1>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub b: u8 }
impl Subj for L_S1_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<1> as Subj>::ty()).skipped(), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S1_X3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S1_X3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S1_X3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S1_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S1_T3(#[cbor(skip)] pub Own<1>, #[cbor(optional)] pub (Own<3>, u8));
impl Subj for T_S1_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty()).skipped(), fld(NULL, <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S1_T3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S1_T3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S1_T3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S1_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S1_T3 { #[cbor(skip)] pub y: Own<1>, #[cbor(optional)] pub x: (Own<3>, u8) }
impl Subj for Y_S1_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<1> as Subj>::ty()).skipped(), fld(t("x"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S1_T3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S1_T3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S1_T3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S1_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S1_R3 { #[cbor(skip)] pub bb: Own<1>, #[cbor(rename = 303)] pub a: Own<3> }
impl Subj for S_S1_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<1> as Subj>::ty()).skipped(), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S1_R3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S1_R3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S1_R3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S1_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W1_P0 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, pub a: Own<0> }
impl Subj for S_W1_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("a"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W1_P0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W1_P0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W1_P0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W1_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W1_P0 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8, pub b: Own<0> }
impl Subj for L_W1_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("b"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W1_P0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W1_P0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W1_P0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W1_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W1_P1 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, pub a: Own<1> }
impl Subj for S_W1_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("a"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W1_P1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W1_P1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W1_P1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W1_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_W1_P1(#[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8, pub Own<1>);
impl Subj for T_W1_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<1>()), fld(NULL, <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_W1_P1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_W1_P1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_W1_P1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_W1_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_W1_P1 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub y: u8, pub x: Own<1> }
impl Subj for Y_W1_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("x"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_W1_P1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_W1_P1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_W1_P1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_W1_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W1_P2 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, pub a: Own<2> }
impl Subj for S_W1_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("a"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W1_P2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W1_P2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W1_P2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W1_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W1_P2 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8, pub b: Own<2> }
impl Subj for L_W1_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("b"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W1_P2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W1_P2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W1_P2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W1_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_W1_O2(#[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8, #[cbor(optional)] pub Own<2>);
impl Subj for T_W1_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<1>()), fld(NULL, <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_W1_O2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_W1_O2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_W1_O2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_W1_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_W1_O2 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub y: u8, #[cbor(optional)] pub x: Own<2> }
impl Subj for Y_W1_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("x"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_W1_O2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_W1_O2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_W1_O2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_W1_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W1_P3 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, pub a: Own<3> }
impl Subj for S_W1_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("a"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W1_P3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W1_P3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W1_P3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W1_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W1_I0 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<0> }
impl Subj for S_W1_I0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("a"), <Own<0> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W1_I0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W1_I0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W1_I0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W1_I0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W1_I0 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8, #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<0> }
impl Subj for L_W1_I0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("b"), <Own<0> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W1_I0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W1_I0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W1_I0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W1_I0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W1_W0 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_W1_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W1_W0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W1_W0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W1_W0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W1_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_W1_X0(#[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8);
impl Subj for T_W1_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<1>()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_W1_X0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_W1_X0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_W1_X0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_W1_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_W1_X0 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub y: u8, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub x: u8 }
impl Subj for Y_W1_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_W1_X0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_W1_X0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_W1_X0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_W1_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W1_T0 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, #[cbor(optional)] pub a: (Own<0>, u8) }
impl Subj for S_W1_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("a"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W1_T0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W1_T0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W1_T0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W1_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W1_T0 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8, #[cbor(optional)] pub b: (Own<0>, u8) }
impl Subj for L_W1_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("b"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W1_T0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W1_T0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W1_T0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W1_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W1_I1 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<1> }
impl Subj for S_W1_I1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("a"), <Own<1> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W1_I1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W1_I1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W1_I1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W1_I1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W1_W1 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_W1_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W1_W1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W1_W1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W1_W1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W1_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W1_W1 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub b: u8 }
impl Subj for L_W1_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W1_W1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W1_W1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W1_W1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W1_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_W1_X1(#[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8);
impl Subj for T_W1_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<1>()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_W1_X1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_W1_X1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_W1_X1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_W1_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_W1_X1 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub y: u8, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub x: u8 }
impl Subj for Y_W1_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_W1_X1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_W1_X1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_W1_X1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_W1_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W1_T1 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, #[cbor(optional)] pub a: (Own<1>, u8) }
impl Subj for S_W1_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("a"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W1_T1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W1_T1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W1_T1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W1_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W1_I2 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<2> }
impl Subj for S_W1_I2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("a"), <Own<2> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W1_I2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W1_I2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W1_I2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W1_I2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W1_I2 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8, #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<2> }
impl Subj for L_W1_I2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("b"), <Own<2> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W1_I2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W1_I2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W1_I2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W1_I2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W1_W2 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_W1_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W1_W2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W1_W2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W1_W2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W1_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_W1_X2(#[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8);
impl Subj for T_W1_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<1>()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_W1_X2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_W1_X2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_W1_X2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_W1_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_W1_X2 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub y: u8, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub x: u8 }
impl Subj for Y_W1_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_W1_X2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_W1_X2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_W1_X2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_W1_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W1_T2 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, #[cbor(optional)] pub a: (Own<2>, u8) }
impl Subj for S_W1_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("a"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W1_T2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W1_T2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W1_T2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W1_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W1_T2 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8, #[cbor(optional)] pub b: (Own<2>, u8) }
impl Subj for L_W1_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("b"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W1_T2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W1_T2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W1_T2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W1_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W1_I3 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<3> }
impl Subj for S_W1_I3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("a"), <Own<3> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W1_I3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W1_I3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W1_I3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W1_I3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W1_W3 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_W1_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W1_W3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W1_W3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W1_W3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W1_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W1_W3 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub b: u8 }
impl Subj for L_W1_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W1_W3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W1_W3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W1_W3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W1_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_W1_X3(#[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8);
impl Subj for T_W1_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<1>()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_W1_X3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_W1_X3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_W1_X3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_W1_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_W1_X3 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub y: u8, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub x: u8 }
impl Subj for Y_W1_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_W1_X3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_W1_X3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_W1_X3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_W1_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W1_T3 { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, #[cbor(optional)] pub a: (Own<3>, u8) }
impl Subj for S_W1_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("a"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W1_T3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W1_T3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W1_T3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W1_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X1_O0 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, #[cbor(optional)] pub a: Own<0> }
impl Subj for S_X1_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("a"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X1_O0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X1_O0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X1_O0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X1_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X1_O0(#[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8, #[cbor(optional)] pub Own<0>);
impl Subj for T_X1_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(NULL, <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X1_O0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X1_O0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X1_O0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X1_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X1_O0 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub y: u8, #[cbor(optional)] pub x: Own<0> }
impl Subj for Y_X1_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("x"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X1_O0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X1_O0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X1_O0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X1_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X1_O1 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, #[cbor(optional)] pub a: Own<1> }
impl Subj for S_X1_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("a"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X1_O1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X1_O1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X1_O1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X1_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X1_O1 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8, #[cbor(optional)] pub b: Own<1> }
impl Subj for L_X1_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("b"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X1_O1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X1_O1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X1_O1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X1_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X1_P2(#[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8, pub Own<2>);
impl Subj for T_X1_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(NULL, <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X1_P2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X1_P2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X1_P2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X1_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X1_P2 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub y: u8, pub x: Own<2> }
impl Subj for Y_X1_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("x"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X1_P2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X1_P2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X1_P2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X1_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X1_O2 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, #[cbor(optional)] pub a: Own<2> }
impl Subj for S_X1_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("a"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X1_O2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X1_O2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X1_O2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X1_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X1_O3 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, #[cbor(optional)] pub a: Own<3> }
impl Subj for S_X1_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("a"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X1_O3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X1_O3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X1_O3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X1_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X1_O3 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8, #[cbor(optional)] pub b: Own<3> }
impl Subj for L_X1_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("b"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X1_O3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X1_O3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X1_O3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X1_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X1_O3(#[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8, #[cbor(optional)] pub Own<3>);
impl Subj for T_X1_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(NULL, <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X1_O3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X1_O3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X1_O3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X1_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X1_O3 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub y: u8, #[cbor(optional)] pub x: Own<3> }
impl Subj for Y_X1_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("x"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X1_O3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X1_O3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X1_O3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X1_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X1_S0 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, #[cbor(skip)] pub a: Own<0> }
impl Subj for S_X1_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("a"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X1_S0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X1_S0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X1_S0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X1_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X1_W0(#[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8);
impl Subj for T_X1_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(NULL, <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X1_W0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X1_W0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X1_W0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X1_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X1_W0 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub y: u8, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub x: u8 }
impl Subj for Y_X1_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("x"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X1_W0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X1_W0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X1_W0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X1_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X1_X0 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_X1_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X1_X0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X1_X0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X1_X0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X1_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X1_X0 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub b: u8 }
impl Subj for L_X1_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X1_X0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X1_X0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X1_X0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X1_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X1_R0 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, #[cbor(rename = 300)] pub a: Own<0> }
impl Subj for S_X1_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X1_R0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X1_R0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X1_R0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X1_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X1_R0(#[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8, #[cbor(rename = 300)] pub Own<0>);
impl Subj for T_X1_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X1_R0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X1_R0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X1_R0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X1_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X1_R0 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub y: u8, #[cbor(rename = 300)] pub x: Own<0> }
impl Subj for Y_X1_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X1_R0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X1_R0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X1_R0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X1_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X1_S1 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, #[cbor(skip)] pub a: Own<1> }
impl Subj for S_X1_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("a"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X1_S1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X1_S1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X1_S1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X1_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X1_S1 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8, #[cbor(skip)] pub b: Own<1> }
impl Subj for L_X1_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("b"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X1_S1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X1_S1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X1_S1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X1_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X1_W1(#[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8);
impl Subj for T_X1_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(NULL, <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X1_W1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X1_W1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X1_W1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X1_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X1_W1 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub y: u8, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub x: u8 }
impl Subj for Y_X1_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("x"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X1_W1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X1_W1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X1_W1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X1_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X1_X1 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_X1_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X1_X1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X1_X1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X1_X1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X1_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X1_R1 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, #[cbor(rename = 301)] pub a: Own<1> }
impl Subj for S_X1_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X1_R1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X1_R1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X1_R1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X1_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X1_R1 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8, #[cbor(rename = 301)] pub b: Own<1> }
impl Subj for L_X1_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X1_R1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X1_R1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X1_R1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X1_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X1_R1(#[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8, #[cbor(rename = 301)] pub Own<1>);
impl Subj for T_X1_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X1_R1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X1_R1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X1_R1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X1_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X1_R1 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub y: u8, #[cbor(rename = 301)] pub x: Own<1> }
impl Subj for Y_X1_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X1_R1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X1_R1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X1_R1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X1_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X1_S2 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, #[cbor(skip)] pub a: Own<2> }
impl Subj for S_X1_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("a"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X1_S2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X1_S2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X1_S2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X1_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X1_W2(#[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8);
impl Subj for T_X1_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(NULL, <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X1_W2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X1_W2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X1_W2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X1_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X1_W2 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub y: u8, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub x: u8 }
impl Subj for Y_X1_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("x"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X1_W2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X1_W2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X1_W2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X1_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X1_X2 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_X1_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X1_X2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X1_X2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X1_X2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X1_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X1_X2 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub b: u8 }
impl Subj for L_X1_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X1_X2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X1_X2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X1_X2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X1_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X1_R2 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, #[cbor(rename = 302)] pub a: Own<2> }
impl Subj for S_X1_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X1_R2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X1_R2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X1_R2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X1_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X1_R2(#[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8, #[cbor(rename = 302)] pub Own<2>);
impl Subj for T_X1_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X1_R2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X1_R2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X1_R2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X1_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X1_R2 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub y: u8, #[cbor(rename = 302)] pub x: Own<2> }
impl Subj for Y_X1_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X1_R2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X1_R2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X1_R2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X1_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X1_S3 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, #[cbor(skip)] pub a: Own<3> }
impl Subj for S_X1_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("a"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X1_S3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X1_S3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X1_S3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X1_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X1_S3 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8, #[cbor(skip)] pub b: Own<3> }
impl Subj for L_X1_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("b"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X1_S3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X1_S3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X1_S3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X1_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X1_W3(#[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8);
impl Subj for T_X1_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(NULL, <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X1_W3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X1_W3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X1_W3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X1_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X1_W3 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub y: u8, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub x: u8 }
impl Subj for Y_X1_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("x"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X1_W3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X1_W3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X1_W3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X1_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X1_X3 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_X1_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X1_X3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X1_X3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X1_X3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X1_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X1_R3 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub bb: u8, #[cbor(rename = 303)] pub a: Own<3> }
impl Subj for S_X1_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X1_R3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X1_R3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X1_R3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X1_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X1_R3 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8, #[cbor(rename = 303)] pub b: Own<3> }
impl Subj for L_X1_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X1_R3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X1_R3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X1_R3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X1_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X1_R3(#[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8, #[cbor(rename = 303)] pub Own<3>);
impl Subj for T_X1_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X1_R3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X1_R3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X1_R3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X1_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X1_R3 { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub y: u8, #[cbor(rename = 303)] pub x: Own<3> }
impl Subj for Y_X1_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X1_R3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X1_R3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X1_R3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X1_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T1_P0 { #[cbor(optional)] pub bb: (Own<1>, u8), pub a: Own<0> }
impl Subj for S_T1_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T1_P0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T1_P0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T1_P0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T1_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T1_P0(#[cbor(optional)] pub (Own<1>, u8), pub Own<0>);
impl Subj for T_T1_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<1>, u8) as Subj>::ty()).opt(), fld(NULL, <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T1_P0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T1_P0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T1_P0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T1_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T1_P0 { #[cbor(optional)] pub y: (Own<1>, u8), pub x: Own<0> }
impl Subj for Y_T1_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("x"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T1_P0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T1_P0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T1_P0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T1_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T1_P1 { #[cbor(optional)] pub bb: (Own<1>, u8), pub a: Own<1> }
impl Subj for S_T1_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T1_P1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T1_P1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T1_P1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T1_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T1_P1 { #[cbor(optional)] pub a: (Own<1>, u8), pub b: Own<1> }
impl Subj for L_T1_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("b"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T1_P1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T1_P1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T1_P1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T1_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T1_O1(#[cbor(optional)] pub (Own<1>, u8), #[cbor(optional)] pub Own<1>);
impl Subj for T_T1_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<1>, u8) as Subj>::ty()).opt(), fld(NULL, <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T1_O1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T1_O1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T1_O1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T1_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T1_O1 { #[cbor(optional)] pub y: (Own<1>, u8), #[cbor(optional)] pub x: Own<1> }
impl Subj for Y_T1_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("x"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T1_O1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T1_O1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T1_O1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T1_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T1_P2 { #[cbor(optional)] pub bb: (Own<1>, u8), pub a: Own<2> }
impl Subj for S_T1_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T1_P2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T1_P2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T1_P2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T1_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T1_P3 { #[cbor(optional)] pub bb: (Own<1>, u8), pub a: Own<3> }
impl Subj for S_T1_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T1_P3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T1_P3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T1_P3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T1_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T1_P3 { #[cbor(optional)] pub a: (Own<1>, u8), pub b: Own<3> }
impl Subj for L_T1_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("b"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T1_P3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T1_P3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T1_P3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T1_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T1_P3(#[cbor(optional)] pub (Own<1>, u8), pub Own<3>);
impl Subj for T_T1_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<1>, u8) as Subj>::ty()).opt(), fld(NULL, <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T1_P3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T1_P3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T1_P3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T1_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T1_P3 { #[cbor(optional)] pub y: (Own<1>, u8), pub x: Own<3> }
impl Subj for Y_T1_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("x"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T1_P3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T1_P3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T1_P3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T1_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T1_I0 { #[cbor(optional)] pub bb: (Own<1>, u8), #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<0> }
impl Subj for S_T1_I0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<0> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T1_I0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T1_I0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T1_I0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T1_I0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T1_S0(#[cbor(optional)] pub (Own<1>, u8), #[cbor(skip)] pub Own<0>);
impl Subj for T_T1_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<1>, u8) as Subj>::ty()).opt(), fld(NULL, <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T1_S0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T1_S0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T1_S0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T1_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T1_S0 { #[cbor(optional)] pub y: (Own<1>, u8), #[cbor(skip)] pub x: Own<0> }
impl Subj for Y_T1_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("x"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T1_S0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T1_S0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T1_S0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T1_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T1_W0 { #[cbor(optional)] pub bb: (Own<1>, u8), #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_T1_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T1_W0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T1_W0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T1_W0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T1_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T1_W0 { #[cbor(optional)] pub a: (Own<1>, u8), #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub b: u8 }
impl Subj for L_T1_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T1_W0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T1_W0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T1_W0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T1_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T1_T0 { #[cbor(optional)] pub bb: (Own<1>, u8), #[cbor(optional)] pub a: (Own<0>, u8) }
impl Subj for S_T1_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("a"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T1_T0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T1_T0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T1_T0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T1_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T1_T0(#[cbor(optional)] pub (Own<1>, u8), #[cbor(optional)] pub (Own<0>, u8));
impl Subj for T_T1_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<1>, u8) as Subj>::ty()).opt(), fld(NULL, <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T1_T0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T1_T0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T1_T0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T1_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T1_T0 { #[cbor(optional)] pub y: (Own<1>, u8), #[cbor(optional)] pub x: (Own<0>, u8) }
impl Subj for Y_T1_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("x"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T1_T0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T1_T0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T1_T0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T1_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T1_I1 { #[cbor(optional)] pub bb: (Own<1>, u8), #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<1> }
impl Subj for S_T1_I1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<1> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T1_I1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T1_I1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T1_I1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T1_I1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T1_I1 { #[cbor(optional)] pub a: (Own<1>, u8), #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<1> }
impl Subj for L_T1_I1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("b"), <Own<1> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T1_I1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T1_I1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T1_I1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T1_I1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T1_S1(#[cbor(optional)] pub (Own<1>, u8), #[cbor(skip)] pub Own<1>);
impl Subj for T_T1_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<1>, u8) as Subj>::ty()).opt(), fld(NULL, <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T1_S1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T1_S1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T1_S1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T1_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T1_S1 { #[cbor(optional)] pub y: (Own<1>, u8), #[cbor(skip)] pub x: Own<1> }
impl Subj for Y_T1_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("x"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T1_S1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T1_S1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T1_S1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T1_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T1_W1 { #[cbor(optional)] pub bb: (Own<1>, u8), #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_T1_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T1_W1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T1_W1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T1_W1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T1_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T1_T1 { #[cbor(optional)] pub bb: (Own<1>, u8), #[cbor(optional)] pub a: (Own<1>, u8) }
impl Subj for S_T1_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("a"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T1_T1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T1_T1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T1_T1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T1_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T1_T1 { #[cbor(optional)] pub a: (Own<1>, u8), #[cbor(optional)] pub b: (Own<1>, u8) }
impl Subj for L_T1_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("b"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T1_T1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T1_T1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T1_T1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T1_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T1_T1(#[cbor(optional)] pub (Own<1>, u8), #[cbor(optional)] pub (Own<1>, u8));
impl Subj for T_T1_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<1>, u8) as Subj>::ty()).opt(), fld(NULL, <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T1_T1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T1_T1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T1_T1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T1_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T1_T1 { #[cbor(optional)] pub y: (Own<1>, u8), #[cbor(optional)] pub x: (Own<1>, u8) }
impl Subj for Y_T1_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("x"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T1_T1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T1_T1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T1_T1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T1_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T1_I2 { #[cbor(optional)] pub bb: (Own<1>, u8), #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<2> }
impl Subj for S_T1_I2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<2> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T1_I2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T1_I2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T1_I2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T1_I2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T1_S2(#[cbor(optional)] pub (Own<1>, u8), #[cbor(skip)] pub Own<2>);
impl Subj for T_T1_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<1>, u8) as Subj>::ty()).opt(), fld(NULL, <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T1_S2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T1_S2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T1_S2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T1_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T1_S2 { #[cbor(optional)] pub y: (Own<1>, u8), #[cbor(skip)] pub x: Own<2> }
impl Subj for Y_T1_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("x"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T1_S2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T1_S2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T1_S2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T1_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T1_W2 { #[cbor(optional)] pub bb: (Own<1>, u8), #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_T1_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T1_W2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T1_W2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T1_W2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T1_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T1_W2 { #[cbor(optional)] pub a: (Own<1>, u8), #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub b: u8 }
impl Subj for L_T1_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T1_W2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T1_W2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T1_W2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T1_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T1_T2 { #[cbor(optional)] pub bb: (Own<1>, u8), #[cbor(optional)] pub a: (Own<2>, u8) }
impl Subj for S_T1_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("a"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T1_T2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T1_T2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T1_T2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T1_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T1_T2(#[cbor(optional)] pub (Own<1>, u8), #[cbor(optional)] pub (Own<2>, u8));
impl Subj for T_T1_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<1>, u8) as Subj>::ty()).opt(), fld(NULL, <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T1_T2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T1_T2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T1_T2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T1_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T1_T2 { #[cbor(optional)] pub y: (Own<1>, u8), #[cbor(optional)] pub x: (Own<2>, u8) }
impl Subj for Y_T1_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("x"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T1_T2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T1_T2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T1_T2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T1_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T1_I3 { #[cbor(optional)] pub bb: (Own<1>, u8), #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<3> }
impl Subj for S_T1_I3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<3> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T1_I3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T1_I3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T1_I3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T1_I3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T1_I3 { #[cbor(optional)] pub a: (Own<1>, u8), #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<3> }
impl Subj for L_T1_I3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("b"), <Own<3> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T1_I3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T1_I3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T1_I3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T1_I3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T1_S3(#[cbor(optional)] pub (Own<1>, u8), #[cbor(skip)] pub Own<3>);
impl Subj for T_T1_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<1>, u8) as Subj>::ty()).opt(), fld(NULL, <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T1_S3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T1_S3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T1_S3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T1_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T1_S3 { #[cbor(optional)] pub y: (Own<1>, u8), #[cbor(skip)] pub x: Own<3> }
impl Subj for Y_T1_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("x"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T1_S3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T1_S3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T1_S3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T1_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T1_W3 { #[cbor(optional)] pub bb: (Own<1>, u8), #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_T1_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T1_W3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T1_W3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T1_W3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T1_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T1_T3 { #[cbor(optional)] pub bb: (Own<1>, u8), #[cbor(optional)] pub a: (Own<3>, u8) }
impl Subj for S_T1_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("a"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T1_T3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T1_T3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T1_T3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T1_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T1_T3 { #[cbor(optional)] pub a: (Own<1>, u8), #[cbor(optional)] pub b: (Own<3>, u8) }
impl Subj for L_T1_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("b"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T1_T3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T1_T3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T1_T3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T1_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T1_T3(#[cbor(optional)] pub (Own<1>, u8), #[cbor(optional)] pub (Own<3>, u8));
impl Subj for T_T1_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<1>, u8) as Subj>::ty()).opt(), fld(NULL, <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T1_T3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T1_T3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T1_T3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T1_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T1_T3 { #[cbor(optional)] pub y: (Own<1>, u8), #[cbor(optional)] pub x: (Own<3>, u8) }
impl Subj for Y_T1_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("x"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T1_T3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T1_T3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T1_T3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T1_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R1_O0 { #[cbor(rename = 301)] pub bb: Own<1>, #[cbor(optional)] pub a: Own<0> }
impl Subj for S_R1_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("a"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R1_O0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R1_O0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R1_O0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R1_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R1_O0 { #[cbor(rename = 301)] pub a: Own<1>, #[cbor(optional)] pub b: Own<0> }
impl Subj for L_R1_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("b"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R1_O0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R1_O0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R1_O0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R1_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_R1_P1(#[cbor(rename = 301)] pub Own<1>, pub Own<1>);
impl Subj for T_R1_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(NULL, <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_R1_P1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_R1_P1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_R1_P1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_R1_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_R1_P1 { #[cbor(rename = 301)] pub y: Own<1>, pub x: Own<1> }
impl Subj for Y_R1_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("x"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_R1_P1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_R1_P1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_R1_P1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_R1_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R1_O1 { #[cbor(rename = 301)] pub bb: Own<1>, #[cbor(optional)] pub a: Own<1> }
impl Subj for S_R1_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("a"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R1_O1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R1_O1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R1_O1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R1_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R1_O2 { #[cbor(rename = 301)] pub bb: Own<1>, #[cbor(optional)] pub a: Own<2> }
impl Subj for S_R1_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("a"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R1_O2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R1_O2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R1_O2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R1_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R1_O2 { #[cbor(rename = 301)] pub a: Own<1>, #[cbor(optional)] pub b: Own<2> }
impl Subj for L_R1_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("b"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R1_O2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R1_O2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R1_O2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R1_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_R1_O2(#[cbor(rename = 301)] pub Own<1>, #[cbor(optional)] pub Own<2>);
impl Subj for T_R1_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(NULL, <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_R1_O2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_R1_O2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_R1_O2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_R1_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_R1_O2 { #[cbor(rename = 301)] pub y: Own<1>, #[cbor(optional)] pub x: Own<2> }
impl Subj for Y_R1_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("x"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_R1_O2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_R1_O2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_R1_O2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_R1_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R1_O3 { #[cbor(rename = 301)] pub bb: Own<1>, #[cbor(optional)] pub a: Own<3> }
impl Subj for S_R1_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("a"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R1_O3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R1_O3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R1_O3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R1_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R1_S0 { #[cbor(rename = 301)] pub bb: Own<1>, #[cbor(skip)] pub a: Own<0> }
impl Subj for S_R1_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("a"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R1_S0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R1_S0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R1_S0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R1_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R1_S0 { #[cbor(rename = 301)] pub a: Own<1>, #[cbor(skip)] pub b: Own<0> }
impl Subj for L_R1_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("b"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R1_S0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R1_S0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R1_S0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R1_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R1_X0 { #[cbor(rename = 301)] pub bb: Own<1>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_R1_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R1_X0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R1_X0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R1_X0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R1_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_R1_X0(#[cbor(rename = 301)] pub Own<1>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8);
impl Subj for T_R1_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_R1_X0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_R1_X0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_R1_X0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_R1_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_R1_X0 { #[cbor(rename = 301)] pub y: Own<1>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub x: u8 }
impl Subj for Y_R1_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_R1_X0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_R1_X0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_R1_X0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_R1_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R1_R0 { #[cbor(rename = 301)] pub bb: Own<1>, #[cbor(rename = 300)] pub a: Own<0> }
impl Subj for S_R1_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R1_R0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R1_R0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R1_R0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R1_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R1_R0 { #[cbor(rename = 301)] pub a: Own<1>, #[cbor(rename = 300)] pub b: Own<0> }
impl Subj for L_R1_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R1_R0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R1_R0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R1_R0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R1_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R1_S1 { #[cbor(rename = 301)] pub bb: Own<1>, #[cbor(skip)] pub a: Own<1> }
impl Subj for S_R1_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("a"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R1_S1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R1_S1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R1_S1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R1_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R1_X1 { #[cbor(rename = 301)] pub bb: Own<1>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_R1_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R1_X1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R1_X1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R1_X1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R1_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R1_X1 { #[cbor(rename = 301)] pub a: Own<1>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub b: u8 }
impl Subj for L_R1_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R1_X1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R1_X1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R1_X1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R1_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_R1_X1(#[cbor(rename = 301)] pub Own<1>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8);
impl Subj for T_R1_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_R1_X1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_R1_X1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_R1_X1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_R1_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_R1_X1 { #[cbor(rename = 301)] pub y: Own<1>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub x: u8 }
impl Subj for Y_R1_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_R1_X1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_R1_X1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_R1_X1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_R1_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R1_R1 { #[cbor(rename = 301)] pub bb: Own<1>, pub a: Own<1> }
impl Subj for S_R1_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("a"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R1_R1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R1_R1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R1_R1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R1_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R1_S2 { #[cbor(rename = 301)] pub bb: Own<1>, #[cbor(skip)] pub a: Own<2> }
impl Subj for S_R1_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("a"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R1_S2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R1_S2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R1_S2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R1_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R1_S2 { #[cbor(rename = 301)] pub a: Own<1>, #[cbor(skip)] pub b: Own<2> }
impl Subj for L_R1_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("b"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R1_S2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R1_S2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R1_S2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R1_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R1_X2 { #[cbor(rename = 301)] pub bb: Own<1>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_R1_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R1_X2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R1_X2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R1_X2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R1_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_R1_X2(#[cbor(rename = 301)] pub Own<1>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8);
impl Subj for T_R1_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_R1_X2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_R1_X2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_R1_X2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_R1_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_R1_X2 { #[cbor(rename = 301)] pub y: Own<1>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub x: u8 }
impl Subj for Y_R1_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_R1_X2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_R1_X2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_R1_X2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_R1_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R1_R2 { #[cbor(rename = 301)] pub bb: Own<1>, #[cbor(rename = 302)] pub a: Own<2> }
impl Subj for S_R1_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R1_R2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R1_R2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R1_R2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R1_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R1_R2 { #[cbor(rename = 301)] pub a: Own<1>, #[cbor(rename = 302)] pub b: Own<2> }
impl Subj for L_R1_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R1_R2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R1_R2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R1_R2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R1_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R1_S3 { #[cbor(rename = 301)] pub bb: Own<1>, #[cbor(skip)] pub a: Own<3> }
impl Subj for S_R1_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("a"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R1_S3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R1_S3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R1_S3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R1_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R1_X3 { #[cbor(rename = 301)] pub bb: Own<1>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_R1_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R1_X3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R1_X3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R1_X3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R1_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R1_X3 { #[cbor(rename = 301)] pub a: Own<1>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub b: u8 }
impl Subj for L_R1_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R1_X3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R1_X3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R1_X3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R1_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_R1_X3(#[cbor(rename = 301)] pub Own<1>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8);
impl Subj for T_R1_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_R1_X3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_R1_X3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_R1_X3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_R1_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_R1_X3 { #[cbor(rename = 301)] pub y: Own<1>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub x: u8 }
impl Subj for Y_R1_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_R1_X3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_R1_X3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_R1_X3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_R1_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R1_R3 { #[cbor(rename = 301)] pub bb: Own<1>, #[cbor(rename = 303)] pub a: Own<3> }
impl Subj for S_R1_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R1_R3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R1_R3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R1_R3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R1_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I2_P0 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<2>, pub a: Own<0> }
impl Subj for S_I2_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I2_P0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I2_P0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I2_P0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I2_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I2_P0 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<2>, pub b: Own<0> }
impl Subj for L_I2_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I2_P0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I2_P0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I2_P0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I2_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I2_P1 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<2>, pub a: Own<1> }
impl Subj for S_I2_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I2_P1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I2_P1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I2_P1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I2_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I2_P2 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<2>, pub a: Own<2> }
impl Subj for S_I2_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I2_P2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I2_P2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I2_P2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I2_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I2_P2 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<2>, pub b: Own<2> }
impl Subj for L_I2_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I2_P2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I2_P2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I2_P2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I2_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I2_P3 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<2>, pub a: Own<3> }
impl Subj for S_I2_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I2_P3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I2_P3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I2_P3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I2_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I2_I0 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<2>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<0> }
impl Subj for S_I2_I0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<0> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I2_I0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I2_I0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I2_I0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I2_I0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I2_I0 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<2>, #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<0> }
impl Subj for L_I2_I0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <Own<0> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I2_I0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I2_I0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I2_I0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I2_I0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I2_W0 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<2>, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_I2_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I2_W0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I2_W0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I2_W0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I2_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I2_T0 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<2>, #[cbor(optional)] pub a: (Own<0>, u8) }
impl Subj for S_I2_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I2_T0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I2_T0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I2_T0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I2_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I2_T0 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<2>, #[cbor(optional)] pub b: (Own<0>, u8) }
impl Subj for L_I2_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I2_T0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I2_T0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I2_T0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I2_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I2_I1 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<2>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<1> }
impl Subj for S_I2_I1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<1> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I2_I1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I2_I1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I2_I1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I2_I1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I2_W1 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<2>, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_I2_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I2_W1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I2_W1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I2_W1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I2_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I2_W1 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<2>, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub b: u8 }
impl Subj for L_I2_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I2_W1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I2_W1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I2_W1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I2_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I2_T1 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<2>, #[cbor(optional)] pub a: (Own<1>, u8) }
impl Subj for S_I2_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I2_T1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I2_T1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I2_T1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I2_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I2_I2 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<2>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<2> }
impl Subj for S_I2_I2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<2> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I2_I2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I2_I2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I2_I2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I2_I2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I2_I2 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<2>, #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<2> }
impl Subj for L_I2_I2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <Own<2> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I2_I2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I2_I2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I2_I2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I2_I2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I2_W2 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<2>, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_I2_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I2_W2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I2_W2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I2_W2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I2_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I2_T2 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<2>, #[cbor(optional)] pub a: (Own<2>, u8) }
impl Subj for S_I2_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I2_T2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I2_T2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I2_T2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I2_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I2_T2 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<2>, #[cbor(optional)] pub b: (Own<2>, u8) }
impl Subj for L_I2_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I2_T2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I2_T2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I2_T2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I2_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I2_I3 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<2>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<3> }
impl Subj for S_I2_I3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<3> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I2_I3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I2_I3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I2_I3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I2_I3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I2_W3 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<2>, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_I2_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I2_W3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I2_W3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I2_W3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I2_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I2_W3 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<2>, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub b: u8 }
impl Subj for L_I2_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I2_W3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I2_W3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I2_W3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I2_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I2_T3 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<2>, #[cbor(optional)] pub a: (Own<3>, u8) }
impl Subj for S_I2_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I2_T3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I2_T3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I2_T3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I2_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S2_P0(#[cbor(skip)] pub Own<2>, pub Own<0>);
impl Subj for T_S2_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()).skipped(), fld(NULL, <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S2_P0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S2_P0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S2_P0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S2_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S2_P0 { #[cbor(skip)] pub y: Own<2>, pub x: Own<0> }
impl Subj for Y_S2_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<2> as Subj>::ty()).skipped(), fld(t("x"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S2_P0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S2_P0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S2_P0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S2_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S2_O0 { #[cbor(skip)] pub bb: Own<2>, #[cbor(optional)] pub a: Own<0> }
impl Subj for S_S2_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).skipped(), fld(t("a"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S2_O0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S2_O0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S2_O0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S2_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S2_O1 { #[cbor(skip)] pub bb: Own<2>, #[cbor(optional)] pub a: Own<1> }
impl Subj for S_S2_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).skipped(), fld(t("a"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S2_O1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S2_O1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S2_O1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S2_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S2_O1 { #[cbor(skip)] pub a: Own<2>, #[cbor(optional)] pub b: Own<1> }
impl Subj for L_S2_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).skipped(), fld(t("b"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S2_O1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S2_O1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S2_O1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S2_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S2_O1(#[cbor(skip)] pub Own<2>, #[cbor(optional)] pub Own<1>);
impl Subj for T_S2_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()).skipped(), fld(NULL, <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S2_O1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S2_O1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S2_O1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S2_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S2_O1 { #[cbor(skip)] pub y: Own<2>, #[cbor(optional)] pub x: Own<1> }
impl Subj for Y_S2_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<2> as Subj>::ty()).skipped(), fld(t("x"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S2_O1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S2_O1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S2_O1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S2_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S2_O2 { #[cbor(skip)] pub bb: Own<2>, #[cbor(optional)] pub a: Own<2> }
impl Subj for S_S2_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).skipped(), fld(t("a"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S2_O2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S2_O2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S2_O2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S2_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S2_P3(#[cbor(skip)] pub Own<2>, pub Own<3>);
impl Subj for T_S2_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()).skipped(), fld(NULL, <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S2_P3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S2_P3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S2_P3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S2_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S2_P3 { #[cbor(skip)] pub y: Own<2>, pub x: Own<3> }
impl Subj for Y_S2_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<2> as Subj>::ty()).skipped(), fld(t("x"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S2_P3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S2_P3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S2_P3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S2_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S2_O3 { #[cbor(skip)] pub bb: Own<2>, #[cbor(optional)] pub a: Own<3> }
impl Subj for S_S2_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).skipped(), fld(t("a"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S2_O3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S2_O3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S2_O3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S2_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S2_O3 { #[cbor(skip)] pub a: Own<2>, #[cbor(optional)] pub b: Own<3> }
impl Subj for L_S2_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).skipped(), fld(t("b"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S2_O3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S2_O3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S2_O3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S2_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S2_S0 { #[cbor(skip)] pub bb: Own<2>, #[cbor(skip)] pub a: Own<0> }
impl Subj for S_S2_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).skipped(), fld(t("a"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S2_S0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S2_S0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S2_S0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S2_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S2_S0(#[cbor(skip)] pub Own<2>, #[cbor(skip)] pub Own<0>);
impl Subj for T_S2_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()).skipped(), fld(NULL, <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S2_S0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S2_S0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S2_S0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S2_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S2_S0 { #[cbor(skip)] pub y: Own<2>, #[cbor(skip)] pub x: Own<0> }
impl Subj for Y_S2_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<2> as Subj>::ty()).skipped(), fld(t("x"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S2_S0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S2_S0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S2_S0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S2_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S2_X0 { #[cbor(skip)] pub bb: Own<2>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_S2_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).skipped(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S2_X0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S2_X0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S2_X0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S2_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S2_X0 { #[cbor(skip)] pub a: Own<2>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub b: u8 }
impl Subj for L_S2_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).skipped(), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S2_X0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S2_X0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S2_X0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S2_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S2_T0(#[cbor(skip)] pub Own<2>, #[cbor(optional)] pub (Own<0>, u8));
impl Subj for T_S2_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()).skipped(), fld(NULL, <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S2_T0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S2_T0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S2_T0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S2_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S2_T0 { #[cbor(skip)] pub y: Own<2>, #[cbor(optional)] pub x: (Own<0>, u8) }
impl Subj for Y_S2_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<2> as Subj>::ty()).skipped(), fld(t("x"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S2_T0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S2_T0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S2_T0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S2_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S2_R0 { #[cbor(skip)] pub bb: Own<2>, #[cbor(rename = 300)] pub a: Own<0> }
impl Subj for S_S2_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).skipped(), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S2_R0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S2_R0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S2_R0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S2_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S2_S1 { #[cbor(skip)] pub bb: Own<2>, #[cbor(skip)] pub a: Own<1> }
impl Subj for S_S2_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).skipped(), fld(t("a"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S2_S1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S2_S1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S2_S1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S2_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S2_S1 { #[cbor(skip)] pub a: Own<2>, #[cbor(skip)] pub b: Own<1> }
impl Subj for L_S2_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).skipped(), fld(t("b"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S2_S1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S2_S1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S2_S1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S2_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S2_S1(#[cbor(skip)] pub Own<2>, #[cbor(skip)] pub Own<1>);
impl Subj for T_S2_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()).skipped(), fld(NULL, <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S2_S1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S2_S1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S2_S1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S2_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S2_S1 { #[cbor(skip)] pub y: Own<2>, #[cbor(skip)] pub x: Own<1> }
impl Subj for Y_S2_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<2> as Subj>::ty()).skipped(), fld(t("x"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S2_S1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S2_S1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S2_S1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S2_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S2_X1 { #[cbor(skip)] pub bb: Own<2>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_S2_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).skipped(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S2_X1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S2_X1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S2_X1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S2_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S2_T1(#[cbor(skip)] pub Own<2>, #[cbor(optional)] pub (Own<1>, u8));
impl Subj for T_S2_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()).skipped(), fld(NULL, <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S2_T1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S2_T1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S2_T1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S2_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S2_T1 { #[cbor(skip)] pub y: Own<2>, #[cbor(optional)] pub x: (Own<1>, u8) }
impl Subj for Y_S2_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<2> as Subj>::ty()).skipped(), fld(t("x"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S2_T1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S2_T1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S2_T1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S2_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S2_R1 { #[cbor(skip)] pub bb: Own<2>, #[cbor(rename = 301)] pub a: Own<1> }
impl Subj for S_S2_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).skipped(), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S2_R1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S2_R1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S2_R1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S2_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S2_R1 { #[cbor(skip)] pub a: Own<2>, #[cbor(rename = 301)] pub b: Own<1> }
impl Subj for L_S2_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).skipped(), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S2_R1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S2_R1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S2_R1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S2_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S2_S2 { #[cbor(skip)] pub bb: Own<2>, #[cbor(skip)] pub a: Own<2> }
impl Subj for S_S2_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).skipped(), fld(t("a"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S2_S2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S2_S2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S2_S2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S2_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S2_S2(#[cbor(skip)] pub Own<2>, #[cbor(skip)] pub Own<2>);
impl Subj for T_S2_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()).skipped(), fld(NULL, <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S2_S2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S2_S2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S2_S2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S2_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S2_S2 { #[cbor(skip)] pub y: Own<2>, #[cbor(skip)] pub x: Own<2> }
impl Subj for Y_S2_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<2> as Subj>::ty()).skipped(), fld(t("x"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S2_S2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S2_S2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S2_S2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S2_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S2_X2 { #[cbor(skip)] pub bb: Own<2>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_S2_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).skipped(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S2_X2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S2_X2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S2_X2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S2_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S2_X2 { #[cbor(skip)] pub a: Own<2>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub b: u8 }
impl Subj for L_S2_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).skipped(), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S2_X2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S2_X2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S2_X2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S2_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S2_T2(#[cbor(skip)] pub Own<2>, #[cbor(optional)] pub (Own<2>, u8));
impl Subj for T_S2_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()).skipped(), fld(NULL, <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S2_T2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S2_T2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S2_T2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S2_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S2_T2 { #[cbor(skip)] pub y: Own<2>, #[cbor(optional)] pub x: (Own<2>, u8) }
impl Subj for Y_S2_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<2> as Subj>::ty()).skipped(), fld(t("x"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S2_T2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S2_T2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S2_T2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S2_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S2_R2 { #[cbor(skip)] pub bb: Own<2>, #[cbor(rename = 302)] pub a: Own<2> }
impl Subj for S_S2_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).skipped(), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S2_R2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S2_R2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S2_R2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S2_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S2_S3 { #[cbor(skip)] pub bb: Own<2>, #[cbor(skip)] pub a: Own<3> }
impl Subj for S_S2_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).skipped(), fld(t("a"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S2_S3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S2_S3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S2_S3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S2_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S2_S3 { #[cbor(skip)] pub a: Own<2>, #[cbor(skip)] pub b: Own<3> }
impl Subj for L_S2_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).skipped(), fld(t("b"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S2_S3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S2_S3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S2_S3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S2_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S2_S3(#[cbor(skip)] pub Own<2>, #[cbor(skip)] pub Own<3>);
impl Subj for T_S2_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()).skipped(), fld(NULL, <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S2_S3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S2_S3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S2_S3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S2_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S2_S3 { #[cbor(skip)] pub y: Own<2>, #[cbor(skip)] pub x: Own<3> }
impl Subj for Y_S2_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<2> as Subj>::ty()).skipped(), fld(t("x"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S2_S3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S2_S3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S2_S3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S2_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S2_X3 { #[cbor(skip)] pub bb: Own<2>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_S2_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).skipped(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S2_X3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S2_X3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S2_X3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S2_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S2_T3(#[cbor(skip)] pub Own<2>, #[cbor(optional)] pub (Own<3>, u8));
impl Subj for T_S2_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty()).skipped(), fld(NULL, <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S2_T3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S2_T3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S2_T3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S2_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S2_T3 { #[cbor(skip)] pub y: Own<2>, #[cbor(optional)] pub x: (Own<3>, u8) }
impl Subj for Y_S2_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<2> as Subj>::ty()).skipped(), fld(t("x"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S2_T3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S2_T3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S2_T3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S2_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S2_R3 { #[cbor(skip)] pub bb: Own<2>, #[cbor(rename = 303)] pub a: Own<3> }
impl Subj for S_S2_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<2> as Subj>::ty()).skipped(), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S2_R3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S2_R3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S2_R3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S2_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S2_R3 { #[cbor(skip)] pub a: Own<2>, #[cbor(rename = 303)] pub b: Own<3> }
impl Subj for L_S2_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<2> as Subj>::ty()).skipped(), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S2_R3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S2_R3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S2_R3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S2_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W2_P0 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, pub a: Own<0> }
impl Subj for S_W2_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("a"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W2_P0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W2_P0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W2_P0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W2_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W2_P1 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, pub a: Own<1> }
impl Subj for S_W2_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("a"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W2_P1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W2_P1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W2_P1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W2_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W2_P1 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8, pub b: Own<1> }
impl Subj for L_W2_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("b"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W2_P1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W2_P1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W2_P1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W2_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_W2_P1(#[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8, pub Own<1>);
impl Subj for T_W2_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<2>()), fld(NULL, <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_W2_P1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_W2_P1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_W2_P1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_W2_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_W2_P1 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub y: u8, pub x: Own<1> }
impl Subj for Y_W2_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("x"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_W2_P1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_W2_P1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_W2_P1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_W2_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W2_P2 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, pub a: Own<2> }
impl Subj for S_W2_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("a"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W2_P2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W2_P2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W2_P2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W2_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_W2_O2(#[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8, #[cbor(optional)] pub Own<2>);
impl Subj for T_W2_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<2>()), fld(NULL, <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_W2_O2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_W2_O2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_W2_O2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_W2_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_W2_O2 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub y: u8, #[cbor(optional)] pub x: Own<2> }
impl Subj for Y_W2_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("x"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_W2_O2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_W2_O2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_W2_O2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_W2_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W2_P3 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, pub a: Own<3> }
impl Subj for S_W2_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("a"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W2_P3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W2_P3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W2_P3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W2_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W2_P3 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8, pub b: Own<3> }
impl Subj for L_W2_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("b"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W2_P3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W2_P3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W2_P3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W2_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W2_I0 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<0> }
impl Subj for S_W2_I0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("a"), <Own<0> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W2_I0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W2_I0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W2_I0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W2_I0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W2_W0 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_W2_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W2_W0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W2_W0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W2_W0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W2_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W2_W0 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub b: u8 }
impl Subj for L_W2_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W2_W0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W2_W0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W2_W0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W2_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_W2_X0(#[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8);
impl Subj for T_W2_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<2>()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_W2_X0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_W2_X0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_W2_X0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_W2_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_W2_X0 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub y: u8, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub x: u8 }
impl Subj for Y_W2_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_W2_X0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_W2_X0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_W2_X0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_W2_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W2_T0 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, #[cbor(optional)] pub a: (Own<0>, u8) }
impl Subj for S_W2_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("a"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W2_T0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W2_T0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W2_T0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W2_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W2_I1 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<1> }
impl Subj for S_W2_I1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("a"), <Own<1> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W2_I1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W2_I1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W2_I1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W2_I1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W2_I1 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8, #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<1> }
impl Subj for L_W2_I1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("b"), <Own<1> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W2_I1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W2_I1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W2_I1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W2_I1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W2_W1 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_W2_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W2_W1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W2_W1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W2_W1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W2_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_W2_X1(#[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8);
impl Subj for T_W2_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<2>()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_W2_X1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_W2_X1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_W2_X1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_W2_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_W2_X1 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub y: u8, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub x: u8 }
impl Subj for Y_W2_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_W2_X1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_W2_X1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_W2_X1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_W2_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W2_T1 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, #[cbor(optional)] pub a: (Own<1>, u8) }
impl Subj for S_W2_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("a"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W2_T1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W2_T1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W2_T1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W2_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W2_T1 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8, #[cbor(optional)] pub b: (Own<1>, u8) }
impl Subj for L_W2_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("b"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W2_T1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W2_T1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W2_T1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W2_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W2_I2 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<2> }
impl Subj for S_W2_I2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("a"), <Own<2> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W2_I2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W2_I2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W2_I2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W2_I2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W2_W2 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_W2_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W2_W2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W2_W2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W2_W2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W2_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W2_W2 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub b: u8 }
impl Subj for L_W2_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W2_W2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W2_W2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W2_W2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W2_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_W2_X2(#[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8);
impl Subj for T_W2_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<2>()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_W2_X2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_W2_X2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_W2_X2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_W2_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_W2_X2 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub y: u8, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub x: u8 }
impl Subj for Y_W2_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_W2_X2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_W2_X2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_W2_X2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_W2_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W2_T2 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, #[cbor(optional)] pub a: (Own<2>, u8) }
impl Subj for S_W2_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("a"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W2_T2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W2_T2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W2_T2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W2_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W2_I3 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<3> }
impl Subj for S_W2_I3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("a"), <Own<3> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W2_I3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W2_I3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W2_I3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W2_I3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W2_I3 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8, #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<3> }
impl Subj for L_W2_I3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("b"), <Own<3> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W2_I3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W2_I3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W2_I3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W2_I3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W2_W3 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_W2_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W2_W3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W2_W3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W2_W3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W2_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_W2_X3(#[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8);
impl Subj for T_W2_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<2>()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_W2_X3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_W2_X3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_W2_X3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_W2_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_W2_X3 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub y: u8, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub x: u8 }
impl Subj for Y_W2_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_W2_X3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_W2_X3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_W2_X3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_W2_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W2_T3 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, #[cbor(optional)] pub a: (Own<3>, u8) }
impl Subj for S_W2_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("a"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W2_T3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W2_T3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W2_T3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W2_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W2_T3 { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8, #[cbor(optional)] pub b: (Own<3>, u8) }
impl Subj for L_W2_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("b"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W2_T3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W2_T3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W2_T3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W2_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X2_O0 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, #[cbor(optional)] pub a: Own<0> }
impl Subj for S_X2_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("a"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X2_O0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X2_O0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X2_O0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X2_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X2_O0 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8, #[cbor(optional)] pub b: Own<0> }
impl Subj for L_X2_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("b"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X2_O0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X2_O0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X2_O0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X2_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X2_O0(#[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8, #[cbor(optional)] pub Own<0>);
impl Subj for T_X2_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(NULL, <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X2_O0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X2_O0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X2_O0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X2_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X2_O0 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub y: u8, #[cbor(optional)] pub x: Own<0> }
impl Subj for Y_X2_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("x"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X2_O0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X2_O0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X2_O0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X2_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X2_O1 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, #[cbor(optional)] pub a: Own<1> }
impl Subj for S_X2_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("a"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X2_O1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X2_O1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X2_O1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X2_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X2_P2(#[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8, pub Own<2>);
impl Subj for T_X2_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(NULL, <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X2_P2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X2_P2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X2_P2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X2_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X2_P2 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub y: u8, pub x: Own<2> }
impl Subj for Y_X2_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("x"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X2_P2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X2_P2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X2_P2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X2_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X2_O2 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, #[cbor(optional)] pub a: Own<2> }
impl Subj for S_X2_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("a"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X2_O2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X2_O2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X2_O2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X2_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X2_O2 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8, #[cbor(optional)] pub b: Own<2> }
impl Subj for L_X2_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("b"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X2_O2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X2_O2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X2_O2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X2_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X2_O3 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, #[cbor(optional)] pub a: Own<3> }
impl Subj for S_X2_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("a"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X2_O3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X2_O3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X2_O3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X2_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X2_O3(#[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8, #[cbor(optional)] pub Own<3>);
impl Subj for T_X2_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(NULL, <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X2_O3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X2_O3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X2_O3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X2_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X2_O3 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub y: u8, #[cbor(optional)] pub x: Own<3> }
impl Subj for Y_X2_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("x"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X2_O3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X2_O3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X2_O3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X2_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X2_S0 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, #[cbor(skip)] pub a: Own<0> }
impl Subj for S_X2_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("a"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X2_S0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X2_S0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X2_S0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X2_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X2_S0 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8, #[cbor(skip)] pub b: Own<0> }
impl Subj for L_X2_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("b"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X2_S0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X2_S0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X2_S0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X2_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X2_W0(#[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8);
impl Subj for T_X2_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(NULL, <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X2_W0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X2_W0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X2_W0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X2_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X2_W0 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub y: u8, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub x: u8 }
impl Subj for Y_X2_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("x"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X2_W0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X2_W0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X2_W0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X2_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X2_X0 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_X2_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X2_X0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X2_X0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X2_X0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X2_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X2_R0 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, #[cbor(rename = 300)] pub a: Own<0> }
impl Subj for S_X2_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X2_R0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X2_R0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X2_R0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X2_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X2_R0 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8, #[cbor(rename = 300)] pub b: Own<0> }
impl Subj for L_X2_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X2_R0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X2_R0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X2_R0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X2_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X2_R0(#[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8, #[cbor(rename = 300)] pub Own<0>);
impl Subj for T_X2_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X2_R0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X2_R0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X2_R0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X2_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X2_R0 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub y: u8, #[cbor(rename = 300)] pub x: Own<0> }
impl Subj for Y_X2_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X2_R0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X2_R0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X2_R0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X2_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X2_S1 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, #[cbor(skip)] pub a: Own<1> }
impl Subj for S_X2_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("a"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X2_S1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X2_S1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X2_S1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X2_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X2_W1(#[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8);
impl Subj for T_X2_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(NULL, <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X2_W1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X2_W1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X2_W1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X2_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X2_W1 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub y: u8, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub x: u8 }
impl Subj for Y_X2_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("x"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X2_W1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X2_W1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X2_W1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X2_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X2_X1 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_X2_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X2_X1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X2_X1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X2_X1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X2_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X2_X1 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub b: u8 }
impl Subj for L_X2_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X2_X1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X2_X1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X2_X1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X2_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X2_R1 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, #[cbor(rename = 301)] pub a: Own<1> }
impl Subj for S_X2_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X2_R1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X2_R1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X2_R1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X2_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X2_R1(#[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8, #[cbor(rename = 301)] pub Own<1>);
impl Subj for T_X2_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X2_R1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X2_R1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X2_R1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X2_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X2_R1 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub y: u8, #[cbor(rename = 301)] pub x: Own<1> }
impl Subj for Y_X2_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X2_R1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X2_R1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X2_R1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X2_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X2_S2 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, #[cbor(skip)] pub a: Own<2> }
impl Subj for S_X2_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("a"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X2_S2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X2_S2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X2_S2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X2_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X2_S2 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8, #[cbor(skip)] pub b: Own<2> }
impl Subj for L_X2_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("b"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X2_S2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X2_S2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X2_S2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X2_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X2_W2(#[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8);
impl Subj for T_X2_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(NULL, <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X2_W2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X2_W2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X2_W2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X2_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X2_W2 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub y: u8, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub x: u8 }
impl Subj for Y_X2_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("x"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X2_W2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X2_W2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X2_W2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X2_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X2_X2 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_X2_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X2_X2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X2_X2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X2_X2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X2_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X2_R2 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, #[cbor(rename = 302)] pub a: Own<2> }
impl Subj for S_X2_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X2_R2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X2_R2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X2_R2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X2_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X2_R2 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8, #[cbor(rename = 302)] pub b: Own<2> }
impl Subj for L_X2_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X2_R2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X2_R2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X2_R2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X2_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X2_R2(#[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8, #[cbor(rename = 302)] pub Own<2>);
impl Subj for T_X2_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X2_R2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X2_R2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X2_R2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X2_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X2_R2 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub y: u8, #[cbor(rename = 302)] pub x: Own<2> }
impl Subj for Y_X2_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X2_R2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X2_R2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X2_R2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X2_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X2_S3 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, #[cbor(skip)] pub a: Own<3> }
impl Subj for S_X2_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("a"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X2_S3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X2_S3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X2_S3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X2_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X2_W3(#[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8);
impl Subj for T_X2_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(NULL, <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X2_W3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X2_W3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X2_W3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X2_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X2_W3 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub y: u8, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub x: u8 }
impl Subj for Y_X2_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("x"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X2_W3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X2_W3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X2_W3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X2_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X2_X3 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_X2_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X2_X3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X2_X3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X2_X3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X2_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X2_X3 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub b: u8 }
impl Subj for L_X2_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X2_X3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X2_X3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X2_X3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X2_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X2_R3 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub bb: u8, #[cbor(rename = 303)] pub a: Own<3> }
impl Subj for S_X2_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X2_R3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X2_R3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X2_R3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X2_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X2_R3(#[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8, #[cbor(rename = 303)] pub Own<3>);
impl Subj for T_X2_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X2_R3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X2_R3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X2_R3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X2_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X2_R3 { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub y: u8, #[cbor(rename = 303)] pub x: Own<3> }
impl Subj for Y_X2_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X2_R3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X2_R3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X2_R3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X2_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T2_P0 { #[cbor(optional)] pub bb: (Own<2>, u8), pub a: Own<0> }
impl Subj for S_T2_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T2_P0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T2_P0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T2_P0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T2_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T2_P0 { #[cbor(optional)] pub a: (Own<2>, u8), pub b: Own<0> }
impl Subj for L_T2_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("b"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T2_P0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T2_P0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T2_P0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T2_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T2_P0(#[cbor(optional)] pub (Own<2>, u8), pub Own<0>);
impl Subj for T_T2_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<2>, u8) as Subj>::ty()).opt(), fld(NULL, <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T2_P0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T2_P0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T2_P0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T2_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T2_P0 { #[cbor(optional)] pub y: (Own<2>, u8), pub x: Own<0> }
impl Subj for Y_T2_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("x"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T2_P0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T2_P0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T2_P0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T2_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T2_P1 { #[cbor(optional)] pub bb: (Own<2>, u8), pub a: Own<1> }
impl Subj for S_T2_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T2_P1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T2_P1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T2_P1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T2_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T2_O1(#[cbor(optional)] pub (Own<2>, u8), #[cbor(optional)] pub Own<1>);
impl Subj for T_T2_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<2>, u8) as Subj>::ty()).opt(), fld(NULL, <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T2_O1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T2_O1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T2_O1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T2_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T2_O1 { #[cbor(optional)] pub y: (Own<2>, u8), #[cbor(optional)] pub x: Own<1> }
impl Subj for Y_T2_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("x"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T2_O1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T2_O1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T2_O1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T2_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T2_P2 { #[cbor(optional)] pub bb: (Own<2>, u8), pub a: Own<2> }
impl Subj for S_T2_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T2_P2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T2_P2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T2_P2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T2_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T2_P2 { #[cbor(optional)] pub a: (Own<2>, u8), pub b: Own<2> }
impl Subj for L_T2_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("b"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T2_P2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T2_P2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T2_P2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T2_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T2_P3 { #[cbor(optional)] pub bb: (Own<2>, u8), pub a: Own<3> }
impl Subj for S_T2_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T2_P3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T2_P3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T2_P3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T2_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T2_P3(#[cbor(optional)] pub (Own<2>, u8), pub Own<3>);
impl Subj for T_T2_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<2>, u8) as Subj>::ty()).opt(), fld(NULL, <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T2_P3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T2_P3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T2_P3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T2_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T2_P3 { #[cbor(optional)] pub y: (Own<2>, u8), pub x: Own<3> }
impl Subj for Y_T2_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("x"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T2_P3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T2_P3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T2_P3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T2_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T2_I0 { #[cbor(optional)] pub bb: (Own<2>, u8), #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<0> }
impl Subj for S_T2_I0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<0> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T2_I0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T2_I0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T2_I0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T2_I0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T2_I0 { #[cbor(optional)] pub a: (Own<2>, u8), #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<0> }
impl Subj for L_T2_I0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("b"), <Own<0> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T2_I0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T2_I0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T2_I0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T2_I0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T2_S0(#[cbor(optional)] pub (Own<2>, u8), #[cbor(skip)] pub Own<0>);
impl Subj for T_T2_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<2>, u8) as Subj>::ty()).opt(), fld(NULL, <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T2_S0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T2_S0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T2_S0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T2_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T2_S0 { #[cbor(optional)] pub y: (Own<2>, u8), #[cbor(skip)] pub x: Own<0> }
impl Subj for Y_T2_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("x"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T2_S0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T2_S0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T2_S0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T2_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T2_W0 { #[cbor(optional)] pub bb: (Own<2>, u8), #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_T2_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T2_W0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T2_W0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T2_W0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T2_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T2_T0 { #[cbor(optional)] pub bb: (Own<2>, u8), #[cbor(optional)] pub a: (Own<0>, u8) }
impl Subj for S_T2_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("a"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T2_T0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T2_T0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T2_T0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T2_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T2_T0 { #[cbor(optional)] pub a: (Own<2>, u8), #[cbor(optional)] pub b: (Own<0>, u8) }
impl Subj for L_T2_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("b"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T2_T0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T2_T0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T2_T0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T2_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T2_T0(#[cbor(optional)] pub (Own<2>, u8), #[cbor(optional)] pub (Own<0>, u8));
impl Subj for T_T2_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<2>, u8) as Subj>::ty()).opt(), fld(NULL, <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T2_T0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T2_T0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T2_T0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T2_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T2_T0 { #[cbor(optional)] pub y: (Own<2>, u8), #[cbor(optional)] pub x: (Own<0>, u8) }
impl Subj for Y_T2_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("x"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T2_T0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T2_T0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T2_T0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T2_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T2_I1 { #[cbor(optional)] pub bb: (Own<2>, u8), #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<1> }
impl Subj for S_T2_I1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<1> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T2_I1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T2_I1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T2_I1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T2_I1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T2_S1(#[cbor(optional)] pub (Own<2>, u8), #[cbor(skip)] pub Own<1>);
impl Subj for T_T2_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<2>, u8) as Subj>::ty()).opt(), fld(NULL, <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T2_S1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T2_S1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T2_S1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T2_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T2_S1 { #[cbor(optional)] pub y: (Own<2>, u8), #[cbor(skip)] pub x: Own<1> }
impl Subj for Y_T2_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("x"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T2_S1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T2_S1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T2_S1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T2_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T2_W1 { #[cbor(optional)] pub bb: (Own<2>, u8), #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_T2_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T2_W1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T2_W1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T2_W1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T2_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T2_W1 { #[cbor(optional)] pub a: (Own<2>, u8), #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub b: u8 }
impl Subj for L_T2_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T2_W1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T2_W1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T2_W1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T2_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T2_T1 { #[cbor(optional)] pub bb: (Own<2>, u8), #[cbor(optional)] pub a: (Own<1>, u8) }
impl Subj for S_T2_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("a"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T2_T1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T2_T1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T2_T1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T2_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T2_T1(#[cbor(optional)] pub (Own<2>, u8), #[cbor(optional)] pub (Own<1>, u8));
impl Subj for T_T2_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<2>, u8) as Subj>::ty()).opt(), fld(NULL, <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T2_T1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T2_T1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T2_T1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T2_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T2_T1 { #[cbor(optional)] pub y: (Own<2>, u8), #[cbor(optional)] pub x: (Own<1>, u8) }
impl Subj for Y_T2_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("x"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T2_T1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T2_T1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T2_T1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T2_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T2_I2 { #[cbor(optional)] pub bb: (Own<2>, u8), #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<2> }
impl Subj for S_T2_I2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<2> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T2_I2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T2_I2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T2_I2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T2_I2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T2_I2 { #[cbor(optional)] pub a: (Own<2>, u8), #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<2> }
impl Subj for L_T2_I2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("b"), <Own<2> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T2_I2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T2_I2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T2_I2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T2_I2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T2_S2(#[cbor(optional)] pub (Own<2>, u8), #[cbor(skip)] pub Own<2>);
impl Subj for T_T2_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<2>, u8) as Subj>::ty()).opt(), fld(NULL, <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T2_S2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T2_S2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T2_S2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T2_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T2_S2 { #[cbor(optional)] pub y: (Own<2>, u8), #[cbor(skip)] pub x: Own<2> }
impl Subj for Y_T2_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("x"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T2_S2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T2_S2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T2_S2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T2_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T2_W2 { #[cbor(optional)] pub bb: (Own<2>, u8), #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_T2_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T2_W2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T2_W2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T2_W2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T2_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T2_T2 { #[cbor(optional)] pub bb: (Own<2>, u8), #[cbor(optional)] pub a: (Own<2>, u8) }
impl Subj for S_T2_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("a"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T2_T2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T2_T2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T2_T2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T2_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T2_T2 { #[cbor(optional)] pub a: (Own<2>, u8), #[cbor(optional)] pub b: (Own<2>, u8) }
impl Subj for L_T2_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("b"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T2_T2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T2_T2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T2_T2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T2_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T2_T2(#[cbor(optional)] pub (Own<2>, u8), #[cbor(optional)] pub (Own<2>, u8));
impl Subj for T_T2_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<2>, u8) as Subj>::ty()).opt(), fld(NULL, <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T2_T2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T2_T2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T2_T2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T2_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T2_T2 { #[cbor(optional)] pub y: (Own<2>, u8), #[cbor(optional)] pub x: (Own<2>, u8) }
impl Subj for Y_T2_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("x"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T2_T2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T2_T2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T2_T2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T2_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T2_I3 { #[cbor(optional)] pub bb: (Own<2>, u8), #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<3> }
impl Subj for S_T2_I3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<3> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T2_I3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T2_I3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T2_I3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T2_I3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T2_S3(#[cbor(optional)] pub (Own<2>, u8), #[cbor(skip)] pub Own<3>);
impl Subj for T_T2_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<2>, u8) as Subj>::ty()).opt(), fld(NULL, <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T2_S3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T2_S3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T2_S3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T2_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T2_S3 { #[cbor(optional)] pub y: (Own<2>, u8), #[cbor(skip)] pub x: Own<3> }
impl Subj for Y_T2_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("x"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T2_S3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T2_S3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T2_S3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T2_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T2_W3 { #[cbor(optional)] pub bb: (Own<2>, u8), #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_T2_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T2_W3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T2_W3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T2_W3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T2_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T2_W3 { #[cbor(optional)] pub a: (Own<2>, u8), #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub b: u8 }
impl Subj for L_T2_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T2_W3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T2_W3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T2_W3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T2_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T2_T3 { #[cbor(optional)] pub bb: (Own<2>, u8), #[cbor(optional)] pub a: (Own<3>, u8) }
impl Subj for S_T2_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("a"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T2_T3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T2_T3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T2_T3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T2_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T2_T3(#[cbor(optional)] pub (Own<2>, u8), #[cbor(optional)] pub (Own<3>, u8));
impl Subj for T_T2_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<2>, u8) as Subj>::ty()).opt(), fld(NULL, <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T2_T3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T2_T3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T2_T3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T2_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T2_T3 { #[cbor(optional)] pub y: (Own<2>, u8), #[cbor(optional)] pub x: (Own<3>, u8) }
impl Subj for Y_T2_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("x"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T2_T3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T2_T3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T2_T3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T2_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R2_O0 { #[cbor(rename = 302)] pub bb: Own<2>, #[cbor(optional)] pub a: Own<0> }
impl Subj for S_R2_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("a"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R2_O0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R2_O0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R2_O0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R2_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_R2_P1(#[cbor(rename = 302)] pub Own<2>, pub Own<1>);
impl Subj for T_R2_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(NULL, <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_R2_P1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_R2_P1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_R2_P1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_R2_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_R2_P1 { #[cbor(rename = 302)] pub y: Own<2>, pub x: Own<1> }
impl Subj for Y_R2_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("x"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_R2_P1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_R2_P1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_R2_P1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_R2_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R2_O1 { #[cbor(rename = 302)] pub bb: Own<2>, #[cbor(optional)] pub a: Own<1> }
impl Subj for S_R2_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("a"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R2_O1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R2_O1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R2_O1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R2_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R2_O1 { #[cbor(rename = 302)] pub a: Own<2>, #[cbor(optional)] pub b: Own<1> }
impl Subj for L_R2_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("b"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R2_O1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R2_O1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R2_O1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R2_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R2_O2 { #[cbor(rename = 302)] pub bb: Own<2>, #[cbor(optional)] pub a: Own<2> }
impl Subj for S_R2_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("a"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R2_O2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R2_O2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R2_O2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R2_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_R2_O2(#[cbor(rename = 302)] pub Own<2>, #[cbor(optional)] pub Own<2>);
impl Subj for T_R2_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(NULL, <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_R2_O2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_R2_O2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_R2_O2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_R2_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_R2_O2 { #[cbor(rename = 302)] pub y: Own<2>, #[cbor(optional)] pub x: Own<2> }
impl Subj for Y_R2_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("x"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_R2_O2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_R2_O2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_R2_O2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_R2_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R2_O3 { #[cbor(rename = 302)] pub bb: Own<2>, #[cbor(optional)] pub a: Own<3> }
impl Subj for S_R2_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("a"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R2_O3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R2_O3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R2_O3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R2_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R2_O3 { #[cbor(rename = 302)] pub a: Own<2>, #[cbor(optional)] pub b: Own<3> }
impl Subj for L_R2_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("b"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R2_O3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R2_O3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R2_O3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R2_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R2_S0 { #[cbor(rename = 302)] pub bb: Own<2>, #[cbor(skip)] pub a: Own<0> }
impl Subj for S_R2_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("a"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R2_S0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R2_S0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R2_S0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R2_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R2_X0 { #[cbor(rename = 302)] pub bb: Own<2>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_R2_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R2_X0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R2_X0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R2_X0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R2_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R2_X0 { #[cbor(rename = 302)] pub a: Own<2>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub b: u8 }
impl Subj for L_R2_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R2_X0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R2_X0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R2_X0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R2_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_R2_X0(#[cbor(rename = 302)] pub Own<2>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8);
impl Subj for T_R2_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_R2_X0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_R2_X0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_R2_X0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_R2_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_R2_X0 { #[cbor(rename = 302)] pub y: Own<2>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub x: u8 }
impl Subj for Y_R2_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_R2_X0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_R2_X0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_R2_X0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_R2_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R2_R0 { #[cbor(rename = 302)] pub bb: Own<2>, #[cbor(rename = 300)] pub a: Own<0> }
impl Subj for S_R2_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R2_R0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R2_R0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R2_R0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R2_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R2_S1 { #[cbor(rename = 302)] pub bb: Own<2>, #[cbor(skip)] pub a: Own<1> }
impl Subj for S_R2_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("a"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R2_S1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R2_S1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R2_S1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R2_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R2_S1 { #[cbor(rename = 302)] pub a: Own<2>, #[cbor(skip)] pub b: Own<1> }
impl Subj for L_R2_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("b"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R2_S1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R2_S1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R2_S1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R2_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R2_X1 { #[cbor(rename = 302)] pub bb: Own<2>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_R2_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R2_X1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R2_X1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R2_X1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R2_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_R2_X1(#[cbor(rename = 302)] pub Own<2>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8);
impl Subj for T_R2_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_R2_X1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_R2_X1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_R2_X1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_R2_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_R2_X1 { #[cbor(rename = 302)] pub y: Own<2>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub x: u8 }
impl Subj for Y_R2_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_R2_X1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_R2_X1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_R2_X1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_R2_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R2_R1 { #[cbor(rename = 302)] pub bb: Own<2>, #[cbor(rename = 301)] pub a: Own<1> }
impl Subj for S_R2_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R2_R1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R2_R1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R2_R1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R2_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R2_R1 { #[cbor(rename = 302)] pub a: Own<2>, #[cbor(rename = 301)] pub b: Own<1> }
impl Subj for L_R2_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R2_R1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R2_R1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R2_R1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R2_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R2_S2 { #[cbor(rename = 302)] pub bb: Own<2>, #[cbor(skip)] pub a: Own<2> }
impl Subj for S_R2_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("a"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R2_S2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R2_S2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R2_S2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R2_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R2_X2 { #[cbor(rename = 302)] pub bb: Own<2>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_R2_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R2_X2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R2_X2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R2_X2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R2_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R2_X2 { #[cbor(rename = 302)] pub a: Own<2>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub b: u8 }
impl Subj for L_R2_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R2_X2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R2_X2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R2_X2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R2_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_R2_X2(#[cbor(rename = 302)] pub Own<2>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8);
impl Subj for T_R2_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_R2_X2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_R2_X2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_R2_X2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_R2_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_R2_X2 { #[cbor(rename = 302)] pub y: Own<2>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub x: u8 }
impl Subj for Y_R2_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_R2_X2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_R2_X2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_R2_X2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_R2_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R2_R2 { #[cbor(rename = 302)] pub bb: Own<2>, pub a: Own<1> }
impl Subj for S_R2_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("a"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R2_R2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R2_R2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R2_R2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R2_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R2_S3 { #[cbor(rename = 302)] pub bb: Own<2>, #[cbor(skip)] pub a: Own<3> }
impl Subj for S_R2_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("a"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R2_S3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R2_S3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R2_S3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R2_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R2_S3 { #[cbor(rename = 302)] pub a: Own<2>, #[cbor(skip)] pub b: Own<3> }
impl Subj for L_R2_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("b"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R2_S3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R2_S3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R2_S3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R2_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R2_X3 { #[cbor(rename = 302)] pub bb: Own<2>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_R2_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R2_X3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R2_X3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R2_X3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R2_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_R2_X3(#[cbor(rename = 302)] pub Own<2>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8);
impl Subj for T_R2_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_R2_X3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_R2_X3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_R2_X3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_R2_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_R2_X3 { #[cbor(rename = 302)] pub y: Own<2>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub x: u8 }
impl Subj for Y_R2_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_R2_X3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_R2_X3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_R2_X3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_R2_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R2_R3 { #[cbor(rename = 302)] pub bb: Own<2>, #[cbor(rename = 303)] pub a: Own<3> }
impl Subj for S_R2_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R2_R3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R2_R3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R2_R3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R2_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R2_R3 { #[cbor(rename = 302)] pub a: Own<2>, #[cbor(rename = 303)] pub b: Own<3> }
impl Subj for L_R2_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R2_R3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R2_R3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R2_R3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R2_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I3_P0 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<3>, pub a: Own<0> }
impl Subj for S_I3_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I3_P0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I3_P0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I3_P0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I3_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I3_P1 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<3>, pub a: Own<1> }
impl Subj for S_I3_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I3_P1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I3_P1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I3_P1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I3_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I3_P1 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<3>, pub b: Own<1> }
impl Subj for L_I3_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I3_P1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I3_P1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I3_P1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I3_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I3_P2 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<3>, pub a: Own<2> }
impl Subj for S_I3_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I3_P2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I3_P2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I3_P2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I3_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I3_P3 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<3>, pub a: Own<3> }
impl Subj for S_I3_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I3_P3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I3_P3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I3_P3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I3_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I3_P3 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<3>, pub b: Own<3> }
impl Subj for L_I3_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I3_P3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I3_P3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I3_P3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I3_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I3_I0 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<3>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<0> }
impl Subj for S_I3_I0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<0> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I3_I0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I3_I0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I3_I0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I3_I0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I3_W0 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<3>, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_I3_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I3_W0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I3_W0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I3_W0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I3_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I3_W0 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<3>, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub b: u8 }
impl Subj for L_I3_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I3_W0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I3_W0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I3_W0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I3_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I3_T0 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<3>, #[cbor(optional)] pub a: (Own<0>, u8) }
impl Subj for S_I3_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I3_T0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I3_T0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I3_T0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I3_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I3_I1 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<3>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<1> }
impl Subj for S_I3_I1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<1> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I3_I1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I3_I1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I3_I1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I3_I1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I3_I1 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<3>, #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<1> }
impl Subj for L_I3_I1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <Own<1> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I3_I1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I3_I1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I3_I1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I3_I1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I3_W1 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<3>, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_I3_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I3_W1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I3_W1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I3_W1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I3_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I3_T1 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<3>, #[cbor(optional)] pub a: (Own<1>, u8) }
impl Subj for S_I3_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I3_T1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I3_T1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I3_T1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I3_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I3_T1 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<3>, #[cbor(optional)] pub b: (Own<1>, u8) }
impl Subj for L_I3_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I3_T1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I3_T1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I3_T1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I3_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I3_I2 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<3>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<2> }
impl Subj for S_I3_I2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<2> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I3_I2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I3_I2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I3_I2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I3_I2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I3_W2 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<3>, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_I3_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I3_W2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I3_W2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I3_W2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I3_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I3_W2 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<3>, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub b: u8 }
impl Subj for L_I3_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I3_W2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I3_W2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I3_W2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I3_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I3_T2 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<3>, #[cbor(optional)] pub a: (Own<2>, u8) }
impl Subj for S_I3_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I3_T2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I3_T2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I3_T2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I3_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I3_I3 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<3>, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<3> }
impl Subj for S_I3_I3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <Own<3> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I3_I3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I3_I3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I3_I3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I3_I3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I3_I3 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<3>, #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<3> }
impl Subj for L_I3_I3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <Own<3> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I3_I3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I3_I3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I3_I3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I3_I3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I3_W3 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<3>, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_I3_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I3_W3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I3_W3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I3_W3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I3_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_I3_T3 { #[cbor(optional, skip_serializing_if = "is_seven")] pub bb: Own<3>, #[cbor(optional)] pub a: (Own<3>, u8) }
impl Subj for S_I3_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).opt().skip_when(seven), fld(t("a"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_I3_T3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_I3_T3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_I3_T3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_I3_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_I3_T3 { #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<3>, #[cbor(optional)] pub b: (Own<3>, u8) }
impl Subj for L_I3_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).opt().skip_when(seven), fld(t("b"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_I3_T3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_I3_T3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_I3_T3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_I3_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S3_P0(#[cbor(skip)] pub Own<3>, pub Own<0>);
impl Subj for T_S3_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty()).skipped(), fld(NULL, <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S3_P0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S3_P0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S3_P0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S3_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S3_P0 { #[cbor(skip)] pub y: Own<3>, pub x: Own<0> }
impl Subj for Y_S3_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<3> as Subj>::ty()).skipped(), fld(t("x"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S3_P0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S3_P0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S3_P0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S3_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S3_O0 { #[cbor(skip)] pub bb: Own<3>, #[cbor(optional)] pub a: Own<0> }
impl Subj for S_S3_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).skipped(), fld(t("a"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S3_O0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S3_O0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S3_O0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S3_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S3_O0 { #[cbor(skip)] pub a: Own<3>, #[cbor(optional)] pub b: Own<0> }
impl Subj for L_S3_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).skipped(), fld(t("b"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S3_O0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S3_O0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S3_O0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S3_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S3_O1 { #[cbor(skip)] pub bb: Own<3>, #[cbor(optional)] pub a: Own<1> }
impl Subj for S_S3_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).skipped(), fld(t("a"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S3_O1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S3_O1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S3_O1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S3_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S3_O1(#[cbor(skip)] pub Own<3>, #[cbor(optional)] pub Own<1>);
impl Subj for T_S3_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty()).skipped(), fld(NULL, <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S3_O1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S3_O1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S3_O1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S3_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S3_O1 { #[cbor(skip)] pub y: Own<3>, #[cbor(optional)] pub x: Own<1> }
impl Subj for Y_S3_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<3> as Subj>::ty()).skipped(), fld(t("x"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S3_O1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S3_O1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S3_O1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S3_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S3_O2 { #[cbor(skip)] pub bb: Own<3>, #[cbor(optional)] pub a: Own<2> }
impl Subj for S_S3_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).skipped(), fld(t("a"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S3_O2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S3_O2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S3_O2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S3_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S3_O2 { #[cbor(skip)] pub a: Own<3>, #[cbor(optional)] pub b: Own<2> }
impl Subj for L_S3_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).skipped(), fld(t("b"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S3_O2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S3_O2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S3_O2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S3_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S3_P3(#[cbor(skip)] pub Own<3>, pub Own<3>);
impl Subj for T_S3_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty()).skipped(), fld(NULL, <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S3_P3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S3_P3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S3_P3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S3_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S3_P3 { #[cbor(skip)] pub y: Own<3>, pub x: Own<3> }
impl Subj for Y_S3_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<3> as Subj>::ty()).skipped(), fld(t("x"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S3_P3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S3_P3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S3_P3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S3_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S3_O3 { #[cbor(skip)] pub bb: Own<3>, #[cbor(optional)] pub a: Own<3> }
impl Subj for S_S3_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).skipped(), fld(t("a"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S3_O3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S3_O3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S3_O3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S3_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S3_S0 { #[cbor(skip)] pub bb: Own<3>, #[cbor(skip)] pub a: Own<0> }
impl Subj for S_S3_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).skipped(), fld(t("a"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S3_S0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S3_S0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S3_S0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S3_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S3_S0 { #[cbor(skip)] pub a: Own<3>, #[cbor(skip)] pub b: Own<0> }
impl Subj for L_S3_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).skipped(), fld(t("b"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S3_S0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S3_S0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S3_S0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S3_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S3_S0(#[cbor(skip)] pub Own<3>, #[cbor(skip)] pub Own<0>);
impl Subj for T_S3_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty()).skipped(), fld(NULL, <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S3_S0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S3_S0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S3_S0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S3_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S3_S0 { #[cbor(skip)] pub y: Own<3>, #[cbor(skip)] pub x: Own<0> }
impl Subj for Y_S3_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<3> as Subj>::ty()).skipped(), fld(t("x"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S3_S0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S3_S0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S3_S0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S3_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S3_X0 { #[cbor(skip)] pub bb: Own<3>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_S3_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).skipped(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S3_X0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S3_X0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S3_X0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S3_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S3_T0(#[cbor(skip)] pub Own<3>, #[cbor(optional)] pub (Own<0>, u8));
impl Subj for T_S3_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty()).skipped(), fld(NULL, <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S3_T0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S3_T0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S3_T0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S3_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S3_T0 { #[cbor(skip)] pub y: Own<3>, #[cbor(optional)] pub x: (Own<0>, u8) }
impl Subj for Y_S3_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<3> as Subj>::ty()).skipped(), fld(t("x"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S3_T0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S3_T0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S3_T0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S3_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S3_R0 { #[cbor(skip)] pub bb: Own<3>, #[cbor(rename = 300)] pub a: Own<0> }
impl Subj for S_S3_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).skipped(), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S3_R0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S3_R0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S3_R0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S3_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S3_R0 { #[cbor(skip)] pub a: Own<3>, #[cbor(rename = 300)] pub b: Own<0> }
impl Subj for L_S3_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).skipped(), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S3_R0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S3_R0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S3_R0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S3_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S3_S1 { #[cbor(skip)] pub bb: Own<3>, #[cbor(skip)] pub a: Own<1> }
impl Subj for S_S3_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).skipped(), fld(t("a"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S3_S1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S3_S1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S3_S1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S3_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S3_S1(#[cbor(skip)] pub Own<3>, #[cbor(skip)] pub Own<1>);
impl Subj for T_S3_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty()).skipped(), fld(NULL, <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S3_S1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S3_S1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S3_S1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S3_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S3_S1 { #[cbor(skip)] pub y: Own<3>, #[cbor(skip)] pub x: Own<1> }
impl Subj for Y_S3_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<3> as Subj>::ty()).skipped(), fld(t("x"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S3_S1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S3_S1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S3_S1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S3_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S3_X1 { #[cbor(skip)] pub bb: Own<3>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_S3_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).skipped(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S3_X1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S3_X1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S3_X1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S3_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S3_X1 { #[cbor(skip)] pub a: Own<3>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub b: u8 }
impl Subj for L_S3_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).skipped(), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S3_X1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S3_X1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S3_X1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S3_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S3_T1(#[cbor(skip)] pub Own<3>, #[cbor(optional)] pub (Own<1>, u8));
impl Subj for T_S3_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty()).skipped(), fld(NULL, <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S3_T1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S3_T1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S3_T1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S3_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S3_T1 { #[cbor(skip)] pub y: Own<3>, #[cbor(optional)] pub x: (Own<1>, u8) }
impl Subj for Y_S3_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<3> as Subj>::ty()).skipped(), fld(t("x"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S3_T1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S3_T1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S3_T1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S3_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S3_R1 { #[cbor(skip)] pub bb: Own<3>, #[cbor(rename = 301)] pub a: Own<1> }
impl Subj for S_S3_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).skipped(), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S3_R1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S3_R1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S3_R1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S3_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S3_S2 { #[cbor(skip)] pub bb: Own<3>, #[cbor(skip)] pub a: Own<2> }
impl Subj for S_S3_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).skipped(), fld(t("a"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S3_S2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S3_S2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S3_S2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S3_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S3_S2 { #[cbor(skip)] pub a: Own<3>, #[cbor(skip)] pub b: Own<2> }
impl Subj for L_S3_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).skipped(), fld(t("b"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S3_S2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S3_S2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S3_S2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S3_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S3_S2(#[cbor(skip)] pub Own<3>, #[cbor(skip)] pub Own<2>);
impl Subj for T_S3_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty()).skipped(), fld(NULL, <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S3_S2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S3_S2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S3_S2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S3_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S3_S2 { #[cbor(skip)] pub y: Own<3>, #[cbor(skip)] pub x: Own<2> }
impl Subj for Y_S3_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<3> as Subj>::ty()).skipped(), fld(t("x"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S3_S2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S3_S2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S3_S2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S3_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S3_X2 { #[cbor(skip)] pub bb: Own<3>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_S3_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).skipped(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S3_X2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S3_X2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S3_X2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S3_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S3_T2(#[cbor(skip)] pub Own<3>, #[cbor(optional)] pub (Own<2>, u8));
impl Subj for T_S3_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty()).skipped(), fld(NULL, <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S3_T2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S3_T2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S3_T2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S3_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S3_T2 { #[cbor(skip)] pub y: Own<3>, #[cbor(optional)] pub x: (Own<2>, u8) }
impl Subj for Y_S3_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<3> as Subj>::ty()).skipped(), fld(t("x"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S3_T2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S3_T2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S3_T2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S3_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S3_R2 { #[cbor(skip)] pub bb: Own<3>, #[cbor(rename = 302)] pub a: Own<2> }
impl Subj for S_S3_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).skipped(), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S3_R2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S3_R2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S3_R2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S3_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S3_R2 { #[cbor(skip)] pub a: Own<3>, #[cbor(rename = 302)] pub b: Own<2> }
impl Subj for L_S3_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).skipped(), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S3_R2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S3_R2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S3_R2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S3_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S3_S3 { #[cbor(skip)] pub bb: Own<3>, #[cbor(skip)] pub a: Own<3> }
impl Subj for S_S3_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).skipped(), fld(t("a"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S3_S3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S3_S3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S3_S3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S3_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S3_S3(#[cbor(skip)] pub Own<3>, #[cbor(skip)] pub Own<3>);
impl Subj for T_S3_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty()).skipped(), fld(NULL, <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S3_S3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S3_S3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S3_S3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S3_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S3_S3 { #[cbor(skip)] pub y: Own<3>, #[cbor(skip)] pub x: Own<3> }
impl Subj for Y_S3_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<3> as Subj>::ty()).skipped(), fld(t("x"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S3_S3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S3_S3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S3_S3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S3_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S3_X3 { #[cbor(skip)] pub bb: Own<3>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_S3_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).skipped(), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S3_X3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S3_X3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S3_X3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S3_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_S3_X3 { #[cbor(skip)] pub a: Own<3>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub b: u8 }
impl Subj for L_S3_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Own<3> as Subj>::ty()).skipped(), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_S3_X3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_S3_X3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_S3_X3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_S3_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_S3_T3(#[cbor(skip)] pub Own<3>, #[cbor(optional)] pub (Own<3>, u8));
impl Subj for T_S3_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty()).skipped(), fld(NULL, <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_S3_T3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_S3_T3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_S3_T3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_S3_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_S3_T3 { #[cbor(skip)] pub y: Own<3>, #[cbor(optional)] pub x: (Own<3>, u8) }
impl Subj for Y_S3_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <Own<3> as Subj>::ty()).skipped(), fld(t("x"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_S3_T3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_S3_T3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_S3_T3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_S3_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_S3_R3 { #[cbor(skip)] pub bb: Own<3>, #[cbor(rename = 303)] pub a: Own<3> }
impl Subj for S_S3_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Own<3> as Subj>::ty()).skipped(), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_S3_R3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_S3_R3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_S3_R3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_S3_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W3_P0 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, pub a: Own<0> }
impl Subj for S_W3_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("a"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W3_P0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W3_P0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W3_P0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W3_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W3_P0 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8, pub b: Own<0> }
impl Subj for L_W3_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("b"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W3_P0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W3_P0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W3_P0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W3_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W3_P1 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, pub a: Own<1> }
impl Subj for S_W3_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("a"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W3_P1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W3_P1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W3_P1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W3_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_W3_P1(#[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8, pub Own<1>);
impl Subj for T_W3_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<3>()), fld(NULL, <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_W3_P1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_W3_P1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_W3_P1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_W3_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_W3_P1 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub y: u8, pub x: Own<1> }
impl Subj for Y_W3_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("x"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_W3_P1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_W3_P1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_W3_P1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_W3_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W3_P2 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, pub a: Own<2> }
impl Subj for S_W3_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("a"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W3_P2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W3_P2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W3_P2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W3_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W3_P2 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8, pub b: Own<2> }
impl Subj for L_W3_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("b"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W3_P2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W3_P2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W3_P2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W3_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_W3_O2(#[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8, #[cbor(optional)] pub Own<2>);
impl Subj for T_W3_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<3>()), fld(NULL, <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_W3_O2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_W3_O2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_W3_O2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_W3_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_W3_O2 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub y: u8, #[cbor(optional)] pub x: Own<2> }
impl Subj for Y_W3_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("x"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_W3_O2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_W3_O2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_W3_O2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_W3_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W3_P3 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, pub a: Own<3> }
impl Subj for S_W3_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("a"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W3_P3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W3_P3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W3_P3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W3_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W3_I0 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<0> }
impl Subj for S_W3_I0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("a"), <Own<0> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W3_I0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W3_I0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W3_I0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W3_I0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W3_I0 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8, #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<0> }
impl Subj for L_W3_I0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("b"), <Own<0> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W3_I0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W3_I0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W3_I0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W3_I0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W3_W0 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_W3_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W3_W0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W3_W0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W3_W0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W3_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_W3_X0(#[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8);
impl Subj for T_W3_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<3>()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_W3_X0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_W3_X0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_W3_X0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_W3_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_W3_X0 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub y: u8, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub x: u8 }
impl Subj for Y_W3_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_W3_X0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_W3_X0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_W3_X0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_W3_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W3_T0 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, #[cbor(optional)] pub a: (Own<0>, u8) }
impl Subj for S_W3_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("a"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W3_T0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W3_T0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W3_T0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W3_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W3_T0 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8, #[cbor(optional)] pub b: (Own<0>, u8) }
impl Subj for L_W3_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("b"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W3_T0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W3_T0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W3_T0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W3_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W3_I1 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<1> }
impl Subj for S_W3_I1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("a"), <Own<1> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W3_I1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W3_I1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W3_I1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W3_I1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W3_W1 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_W3_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W3_W1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W3_W1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W3_W1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W3_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W3_W1 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub b: u8 }
impl Subj for L_W3_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W3_W1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W3_W1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W3_W1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W3_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_W3_X1(#[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8);
impl Subj for T_W3_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<3>()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_W3_X1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_W3_X1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_W3_X1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_W3_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_W3_X1 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub y: u8, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub x: u8 }
impl Subj for Y_W3_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_W3_X1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_W3_X1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_W3_X1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_W3_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W3_T1 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, #[cbor(optional)] pub a: (Own<1>, u8) }
impl Subj for S_W3_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("a"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W3_T1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W3_T1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W3_T1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W3_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W3_I2 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<2> }
impl Subj for S_W3_I2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("a"), <Own<2> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W3_I2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W3_I2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W3_I2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W3_I2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W3_I2 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8, #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<2> }
impl Subj for L_W3_I2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("b"), <Own<2> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W3_I2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W3_I2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W3_I2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W3_I2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W3_W2 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_W3_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W3_W2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W3_W2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W3_W2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W3_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_W3_X2(#[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8);
impl Subj for T_W3_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<3>()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_W3_X2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_W3_X2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_W3_X2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_W3_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_W3_X2 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub y: u8, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub x: u8 }
impl Subj for Y_W3_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_W3_X2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_W3_X2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_W3_X2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_W3_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W3_T2 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, #[cbor(optional)] pub a: (Own<2>, u8) }
impl Subj for S_W3_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("a"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W3_T2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W3_T2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W3_T2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W3_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W3_T2 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8, #[cbor(optional)] pub b: (Own<2>, u8) }
impl Subj for L_W3_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("b"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W3_T2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W3_T2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W3_T2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W3_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W3_I3 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<3> }
impl Subj for S_W3_I3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("a"), <Own<3> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W3_I3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W3_I3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W3_I3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W3_I3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W3_W3 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_W3_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W3_W3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W3_W3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W3_W3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W3_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_W3_W3 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub b: u8 }
impl Subj for L_W3_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_W3_W3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_W3_W3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_W3_W3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_W3_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_W3_X3(#[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8);
impl Subj for T_W3_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<3>()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_W3_X3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_W3_X3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_W3_X3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_W3_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_W3_X3 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub y: u8, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub x: u8 }
impl Subj for Y_W3_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_W3_X3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_W3_X3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_W3_X3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_W3_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_W3_T3 { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, #[cbor(optional)] pub a: (Own<3>, u8) }
impl Subj for S_W3_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("a"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_W3_T3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_W3_T3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_W3_T3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_W3_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X3_O0 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, #[cbor(optional)] pub a: Own<0> }
impl Subj for S_X3_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("a"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X3_O0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X3_O0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X3_O0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X3_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X3_O0(#[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8, #[cbor(optional)] pub Own<0>);
impl Subj for T_X3_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(NULL, <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X3_O0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X3_O0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X3_O0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X3_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X3_O0 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub y: u8, #[cbor(optional)] pub x: Own<0> }
impl Subj for Y_X3_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("x"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X3_O0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X3_O0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X3_O0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X3_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X3_O1 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, #[cbor(optional)] pub a: Own<1> }
impl Subj for S_X3_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("a"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X3_O1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X3_O1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X3_O1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X3_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X3_O1 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8, #[cbor(optional)] pub b: Own<1> }
impl Subj for L_X3_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("b"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X3_O1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X3_O1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X3_O1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X3_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X3_P2(#[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8, pub Own<2>);
impl Subj for T_X3_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(NULL, <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X3_P2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X3_P2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X3_P2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X3_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X3_P2 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub y: u8, pub x: Own<2> }
impl Subj for Y_X3_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("x"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X3_P2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X3_P2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X3_P2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X3_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X3_O2 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, #[cbor(optional)] pub a: Own<2> }
impl Subj for S_X3_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("a"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X3_O2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X3_O2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X3_O2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X3_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X3_O3 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, #[cbor(optional)] pub a: Own<3> }
impl Subj for S_X3_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("a"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X3_O3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X3_O3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X3_O3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X3_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X3_O3 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8, #[cbor(optional)] pub b: Own<3> }
impl Subj for L_X3_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("b"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X3_O3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X3_O3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X3_O3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X3_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X3_O3(#[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8, #[cbor(optional)] pub Own<3>);
impl Subj for T_X3_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(NULL, <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X3_O3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X3_O3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X3_O3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X3_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X3_O3 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub y: u8, #[cbor(optional)] pub x: Own<3> }
impl Subj for Y_X3_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("x"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X3_O3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X3_O3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X3_O3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X3_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X3_S0 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, #[cbor(skip)] pub a: Own<0> }
impl Subj for S_X3_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("a"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X3_S0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X3_S0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X3_S0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X3_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X3_W0(#[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8);
impl Subj for T_X3_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(NULL, <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X3_W0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X3_W0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X3_W0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X3_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X3_W0 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub y: u8, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub x: u8 }
impl Subj for Y_X3_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("x"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X3_W0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X3_W0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X3_W0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X3_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X3_X0 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_X3_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X3_X0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X3_X0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X3_X0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X3_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X3_X0 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub b: u8 }
impl Subj for L_X3_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X3_X0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X3_X0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X3_X0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X3_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X3_R0 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, #[cbor(rename = 300)] pub a: Own<0> }
impl Subj for S_X3_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X3_R0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X3_R0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X3_R0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X3_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X3_R0(#[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8, #[cbor(rename = 300)] pub Own<0>);
impl Subj for T_X3_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X3_R0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X3_R0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X3_R0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X3_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X3_R0 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub y: u8, #[cbor(rename = 300)] pub x: Own<0> }
impl Subj for Y_X3_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X3_R0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X3_R0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X3_R0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X3_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X3_S1 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, #[cbor(skip)] pub a: Own<1> }
impl Subj for S_X3_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("a"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X3_S1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X3_S1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X3_S1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X3_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X3_S1 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8, #[cbor(skip)] pub b: Own<1> }
impl Subj for L_X3_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("b"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X3_S1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X3_S1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X3_S1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X3_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X3_W1(#[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8);
impl Subj for T_X3_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(NULL, <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X3_W1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X3_W1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X3_W1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X3_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X3_W1 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub y: u8, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub x: u8 }
impl Subj for Y_X3_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("x"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X3_W1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X3_W1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X3_W1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X3_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X3_X1 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_X3_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X3_X1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X3_X1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X3_X1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X3_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X3_R1 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, #[cbor(rename = 301)] pub a: Own<1> }
impl Subj for S_X3_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X3_R1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X3_R1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X3_R1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X3_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X3_R1 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8, #[cbor(rename = 301)] pub b: Own<1> }
impl Subj for L_X3_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X3_R1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X3_R1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X3_R1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X3_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X3_R1(#[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8, #[cbor(rename = 301)] pub Own<1>);
impl Subj for T_X3_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X3_R1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X3_R1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X3_R1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X3_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X3_R1 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub y: u8, #[cbor(rename = 301)] pub x: Own<1> }
impl Subj for Y_X3_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X3_R1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X3_R1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X3_R1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X3_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X3_S2 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, #[cbor(skip)] pub a: Own<2> }
impl Subj for S_X3_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("a"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X3_S2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X3_S2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X3_S2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X3_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X3_W2(#[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8);
impl Subj for T_X3_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(NULL, <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X3_W2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X3_W2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X3_W2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X3_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X3_W2 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub y: u8, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub x: u8 }
impl Subj for Y_X3_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("x"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X3_W2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X3_W2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X3_W2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X3_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X3_X2 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_X3_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X3_X2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X3_X2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X3_X2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X3_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X3_X2 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub b: u8 }
impl Subj for L_X3_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X3_X2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X3_X2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X3_X2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X3_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X3_R2 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, #[cbor(rename = 302)] pub a: Own<2> }
impl Subj for S_X3_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X3_R2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X3_R2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X3_R2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X3_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X3_R2(#[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8, #[cbor(rename = 302)] pub Own<2>);
impl Subj for T_X3_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X3_R2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X3_R2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X3_R2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X3_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X3_R2 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub y: u8, #[cbor(rename = 302)] pub x: Own<2> }
impl Subj for Y_X3_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X3_R2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X3_R2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X3_R2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X3_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X3_S3 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, #[cbor(skip)] pub a: Own<3> }
impl Subj for S_X3_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("a"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X3_S3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X3_S3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X3_S3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X3_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X3_S3 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8, #[cbor(skip)] pub b: Own<3> }
impl Subj for L_X3_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("b"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X3_S3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X3_S3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X3_S3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X3_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X3_W3(#[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8);
impl Subj for T_X3_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(NULL, <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X3_W3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X3_W3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X3_W3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X3_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X3_W3 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub y: u8, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub x: u8 }
impl Subj for Y_X3_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("x"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X3_W3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X3_W3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X3_W3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X3_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X3_X3 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_X3_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X3_X3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X3_X3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X3_X3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X3_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_X3_R3 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub bb: u8, #[cbor(rename = 303)] pub a: Own<3> }
impl Subj for S_X3_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_X3_R3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_X3_R3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_X3_R3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_X3_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_X3_R3 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8, #[cbor(rename = 303)] pub b: Own<3> }
impl Subj for L_X3_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_X3_R3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_X3_R3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_X3_R3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_X3_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_X3_R3(#[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8, #[cbor(rename = 303)] pub Own<3>);
impl Subj for T_X3_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_X3_R3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_X3_R3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_X3_R3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_X3_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_X3_R3 { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub y: u8, #[cbor(rename = 303)] pub x: Own<3> }
impl Subj for Y_X3_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_X3_R3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_X3_R3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_X3_R3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_X3_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T3_P0 { #[cbor(optional)] pub bb: (Own<3>, u8), pub a: Own<0> }
impl Subj for S_T3_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T3_P0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T3_P0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T3_P0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T3_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T3_P0(#[cbor(optional)] pub (Own<3>, u8), pub Own<0>);
impl Subj for T_T3_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<3>, u8) as Subj>::ty()).opt(), fld(NULL, <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T3_P0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T3_P0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T3_P0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T3_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T3_P0 { #[cbor(optional)] pub y: (Own<3>, u8), pub x: Own<0> }
impl Subj for Y_T3_P0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("x"), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T3_P0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T3_P0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T3_P0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T3_P0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T3_P1 { #[cbor(optional)] pub bb: (Own<3>, u8), pub a: Own<1> }
impl Subj for S_T3_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T3_P1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T3_P1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T3_P1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T3_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T3_P1 { #[cbor(optional)] pub a: (Own<3>, u8), pub b: Own<1> }
impl Subj for L_T3_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("b"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T3_P1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T3_P1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T3_P1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T3_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T3_O1(#[cbor(optional)] pub (Own<3>, u8), #[cbor(optional)] pub Own<1>);
impl Subj for T_T3_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<3>, u8) as Subj>::ty()).opt(), fld(NULL, <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T3_O1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T3_O1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T3_O1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T3_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T3_O1 { #[cbor(optional)] pub y: (Own<3>, u8), #[cbor(optional)] pub x: Own<1> }
impl Subj for Y_T3_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("x"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T3_O1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T3_O1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T3_O1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T3_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T3_P2 { #[cbor(optional)] pub bb: (Own<3>, u8), pub a: Own<2> }
impl Subj for S_T3_P2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T3_P2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T3_P2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T3_P2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T3_P2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T3_P3 { #[cbor(optional)] pub bb: (Own<3>, u8), pub a: Own<3> }
impl Subj for S_T3_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T3_P3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T3_P3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T3_P3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T3_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T3_P3 { #[cbor(optional)] pub a: (Own<3>, u8), pub b: Own<3> }
impl Subj for L_T3_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("b"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T3_P3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T3_P3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T3_P3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T3_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T3_P3(#[cbor(optional)] pub (Own<3>, u8), pub Own<3>);
impl Subj for T_T3_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<3>, u8) as Subj>::ty()).opt(), fld(NULL, <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T3_P3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T3_P3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T3_P3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T3_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T3_P3 { #[cbor(optional)] pub y: (Own<3>, u8), pub x: Own<3> }
impl Subj for Y_T3_P3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("x"), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T3_P3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T3_P3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T3_P3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T3_P3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T3_I0 { #[cbor(optional)] pub bb: (Own<3>, u8), #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<0> }
impl Subj for S_T3_I0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<0> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T3_I0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T3_I0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T3_I0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T3_I0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T3_S0(#[cbor(optional)] pub (Own<3>, u8), #[cbor(skip)] pub Own<0>);
impl Subj for T_T3_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<3>, u8) as Subj>::ty()).opt(), fld(NULL, <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T3_S0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T3_S0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T3_S0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T3_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T3_S0 { #[cbor(optional)] pub y: (Own<3>, u8), #[cbor(skip)] pub x: Own<0> }
impl Subj for Y_T3_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("x"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T3_S0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T3_S0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T3_S0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T3_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T3_W0 { #[cbor(optional)] pub bb: (Own<3>, u8), #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_T3_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T3_W0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T3_W0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T3_W0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T3_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T3_W0 { #[cbor(optional)] pub a: (Own<3>, u8), #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub b: u8 }
impl Subj for L_T3_W0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T3_W0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T3_W0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T3_W0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T3_W0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T3_T0 { #[cbor(optional)] pub bb: (Own<3>, u8), #[cbor(optional)] pub a: (Own<0>, u8) }
impl Subj for S_T3_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("a"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T3_T0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T3_T0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T3_T0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T3_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T3_T0(#[cbor(optional)] pub (Own<3>, u8), #[cbor(optional)] pub (Own<0>, u8));
impl Subj for T_T3_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<3>, u8) as Subj>::ty()).opt(), fld(NULL, <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T3_T0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T3_T0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T3_T0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T3_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T3_T0 { #[cbor(optional)] pub y: (Own<3>, u8), #[cbor(optional)] pub x: (Own<0>, u8) }
impl Subj for Y_T3_T0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("x"), <(Own<0>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T3_T0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T3_T0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T3_T0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T3_T0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T3_I1 { #[cbor(optional)] pub bb: (Own<3>, u8), #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<1> }
impl Subj for S_T3_I1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<1> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T3_I1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T3_I1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T3_I1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T3_I1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T3_I1 { #[cbor(optional)] pub a: (Own<3>, u8), #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<1> }
impl Subj for L_T3_I1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("b"), <Own<1> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T3_I1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T3_I1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T3_I1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T3_I1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T3_S1(#[cbor(optional)] pub (Own<3>, u8), #[cbor(skip)] pub Own<1>);
impl Subj for T_T3_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<3>, u8) as Subj>::ty()).opt(), fld(NULL, <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T3_S1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T3_S1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T3_S1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T3_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T3_S1 { #[cbor(optional)] pub y: (Own<3>, u8), #[cbor(skip)] pub x: Own<1> }
impl Subj for Y_T3_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("x"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T3_S1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T3_S1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T3_S1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T3_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T3_W1 { #[cbor(optional)] pub bb: (Own<3>, u8), #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_T3_W1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T3_W1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T3_W1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T3_W1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T3_W1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T3_T1 { #[cbor(optional)] pub bb: (Own<3>, u8), #[cbor(optional)] pub a: (Own<1>, u8) }
impl Subj for S_T3_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("a"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T3_T1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T3_T1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T3_T1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T3_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T3_T1 { #[cbor(optional)] pub a: (Own<3>, u8), #[cbor(optional)] pub b: (Own<1>, u8) }
impl Subj for L_T3_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("b"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T3_T1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T3_T1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T3_T1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T3_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T3_T1(#[cbor(optional)] pub (Own<3>, u8), #[cbor(optional)] pub (Own<1>, u8));
impl Subj for T_T3_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<3>, u8) as Subj>::ty()).opt(), fld(NULL, <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T3_T1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T3_T1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T3_T1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T3_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T3_T1 { #[cbor(optional)] pub y: (Own<3>, u8), #[cbor(optional)] pub x: (Own<1>, u8) }
impl Subj for Y_T3_T1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("x"), <(Own<1>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T3_T1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T3_T1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T3_T1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T3_T1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T3_I2 { #[cbor(optional)] pub bb: (Own<3>, u8), #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<2> }
impl Subj for S_T3_I2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<2> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T3_I2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T3_I2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T3_I2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T3_I2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T3_S2(#[cbor(optional)] pub (Own<3>, u8), #[cbor(skip)] pub Own<2>);
impl Subj for T_T3_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<3>, u8) as Subj>::ty()).opt(), fld(NULL, <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T3_S2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T3_S2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T3_S2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T3_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T3_S2 { #[cbor(optional)] pub y: (Own<3>, u8), #[cbor(skip)] pub x: Own<2> }
impl Subj for Y_T3_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("x"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T3_S2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T3_S2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T3_S2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T3_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T3_W2 { #[cbor(optional)] pub bb: (Own<3>, u8), #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_T3_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T3_W2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T3_W2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T3_W2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T3_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T3_W2 { #[cbor(optional)] pub a: (Own<3>, u8), #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub b: u8 }
impl Subj for L_T3_W2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("b"), <u8 as Subj>::ty()).coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T3_W2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T3_W2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T3_W2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T3_W2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T3_T2 { #[cbor(optional)] pub bb: (Own<3>, u8), #[cbor(optional)] pub a: (Own<2>, u8) }
impl Subj for S_T3_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("a"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T3_T2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T3_T2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T3_T2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T3_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T3_T2(#[cbor(optional)] pub (Own<3>, u8), #[cbor(optional)] pub (Own<2>, u8));
impl Subj for T_T3_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<3>, u8) as Subj>::ty()).opt(), fld(NULL, <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T3_T2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T3_T2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T3_T2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T3_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T3_T2 { #[cbor(optional)] pub y: (Own<3>, u8), #[cbor(optional)] pub x: (Own<2>, u8) }
impl Subj for Y_T3_T2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("x"), <(Own<2>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T3_T2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T3_T2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T3_T2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T3_T2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T3_I3 { #[cbor(optional)] pub bb: (Own<3>, u8), #[cbor(optional, skip_serializing_if = "is_seven")] pub a: Own<3> }
impl Subj for S_T3_I3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("a"), <Own<3> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T3_I3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T3_I3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T3_I3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T3_I3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T3_I3 { #[cbor(optional)] pub a: (Own<3>, u8), #[cbor(optional, skip_serializing_if = "is_seven")] pub b: Own<3> }
impl Subj for L_T3_I3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("b"), <Own<3> as Subj>::ty()).opt().skip_when(seven)];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T3_I3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T3_I3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T3_I3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T3_I3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T3_S3(#[cbor(optional)] pub (Own<3>, u8), #[cbor(skip)] pub Own<3>);
impl Subj for T_T3_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<3>, u8) as Subj>::ty()).opt(), fld(NULL, <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T3_S3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T3_S3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T3_S3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T3_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T3_S3 { #[cbor(optional)] pub y: (Own<3>, u8), #[cbor(skip)] pub x: Own<3> }
impl Subj for Y_T3_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("x"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T3_S3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T3_S3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T3_S3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T3_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T3_W3 { #[cbor(optional)] pub bb: (Own<3>, u8), #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_T3_W3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("a"), <u8 as Subj>::ty()).coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T3_W3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T3_W3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T3_W3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T3_W3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_T3_T3 { #[cbor(optional)] pub bb: (Own<3>, u8), #[cbor(optional)] pub a: (Own<3>, u8) }
impl Subj for S_T3_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("a"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_T3_T3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_T3_T3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_T3_T3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_T3_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_T3_T3 { #[cbor(optional)] pub a: (Own<3>, u8), #[cbor(optional)] pub b: (Own<3>, u8) }
impl Subj for L_T3_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("b"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_T3_T3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_T3_T3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_T3_T3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_T3_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_T3_T3(#[cbor(optional)] pub (Own<3>, u8), #[cbor(optional)] pub (Own<3>, u8));
impl Subj for T_T3_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<3>, u8) as Subj>::ty()).opt(), fld(NULL, <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_T3_T3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_T3_T3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_T3_T3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_T3_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_T3_T3 { #[cbor(optional)] pub y: (Own<3>, u8), #[cbor(optional)] pub x: (Own<3>, u8) }
impl Subj for Y_T3_T3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("x"), <(Own<3>, u8) as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_T3_T3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_T3_T3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_T3_T3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_T3_T3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R3_O0 { #[cbor(rename = 303)] pub bb: Own<3>, #[cbor(optional)] pub a: Own<0> }
impl Subj for S_R3_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("a"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R3_O0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R3_O0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R3_O0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R3_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R3_O0 { #[cbor(rename = 303)] pub a: Own<3>, #[cbor(optional)] pub b: Own<0> }
impl Subj for L_R3_O0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("b"), <Own<0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R3_O0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R3_O0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R3_O0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R3_O0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_R3_P1(#[cbor(rename = 303)] pub Own<3>, pub Own<1>);
impl Subj for T_R3_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(NULL, <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_R3_P1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_R3_P1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_R3_P1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_R3_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_R3_P1 { #[cbor(rename = 303)] pub y: Own<3>, pub x: Own<1> }
impl Subj for Y_R3_P1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("x"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_R3_P1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_R3_P1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_R3_P1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_R3_P1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R3_O1 { #[cbor(rename = 303)] pub bb: Own<3>, #[cbor(optional)] pub a: Own<1> }
impl Subj for S_R3_O1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("a"), <Own<1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R3_O1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R3_O1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R3_O1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R3_O1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R3_O2 { #[cbor(rename = 303)] pub bb: Own<3>, #[cbor(optional)] pub a: Own<2> }
impl Subj for S_R3_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("a"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R3_O2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R3_O2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R3_O2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R3_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R3_O2 { #[cbor(rename = 303)] pub a: Own<3>, #[cbor(optional)] pub b: Own<2> }
impl Subj for L_R3_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("b"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R3_O2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R3_O2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R3_O2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R3_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_R3_O2(#[cbor(rename = 303)] pub Own<3>, #[cbor(optional)] pub Own<2>);
impl Subj for T_R3_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(NULL, <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_R3_O2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_R3_O2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_R3_O2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_R3_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_R3_O2 { #[cbor(rename = 303)] pub y: Own<3>, #[cbor(optional)] pub x: Own<2> }
impl Subj for Y_R3_O2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("x"), <Own<2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_R3_O2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_R3_O2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_R3_O2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_R3_O2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R3_O3 { #[cbor(rename = 303)] pub bb: Own<3>, #[cbor(optional)] pub a: Own<3> }
impl Subj for S_R3_O3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("a"), <Own<3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R3_O3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R3_O3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R3_O3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R3_O3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R3_S0 { #[cbor(rename = 303)] pub bb: Own<3>, #[cbor(skip)] pub a: Own<0> }
impl Subj for S_R3_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("a"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R3_S0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R3_S0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R3_S0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R3_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R3_S0 { #[cbor(rename = 303)] pub a: Own<3>, #[cbor(skip)] pub b: Own<0> }
impl Subj for L_R3_S0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("b"), <Own<0> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R3_S0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R3_S0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R3_S0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R3_S0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R3_X0 { #[cbor(rename = 303)] pub bb: Own<3>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub a: u8 }
impl Subj for S_R3_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R3_X0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R3_X0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R3_X0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R3_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_R3_X0(#[cbor(rename = 303)] pub Own<3>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8);
impl Subj for T_R3_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_R3_X0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_R3_X0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_R3_X0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_R3_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_R3_X0 { #[cbor(rename = 303)] pub y: Own<3>, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub x: u8 }
impl Subj for Y_R3_X0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<0>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_R3_X0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_R3_X0 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_R3_X0 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_R3_X0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R3_R0 { #[cbor(rename = 303)] pub bb: Own<3>, #[cbor(rename = 300)] pub a: Own<0> }
impl Subj for S_R3_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R3_R0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R3_R0 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R3_R0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R3_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R3_R0 { #[cbor(rename = 303)] pub a: Own<3>, #[cbor(rename = 300)] pub b: Own<0> }
impl Subj for L_R3_R0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(M::U(300), <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R3_R0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R3_R0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R3_R0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R3_R0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R3_S1 { #[cbor(rename = 303)] pub bb: Own<3>, #[cbor(skip)] pub a: Own<1> }
impl Subj for S_R3_S1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("a"), <Own<1> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R3_S1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R3_S1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R3_S1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R3_S1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R3_X1 { #[cbor(rename = 303)] pub bb: Own<3>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub a: u8 }
impl Subj for S_R3_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R3_X1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R3_X1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R3_X1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R3_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R3_X1 { #[cbor(rename = 303)] pub a: Own<3>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub b: u8 }
impl Subj for L_R3_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R3_X1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R3_X1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R3_X1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R3_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_R3_X1(#[cbor(rename = 303)] pub Own<3>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8);
impl Subj for T_R3_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_R3_X1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_R3_X1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_R3_X1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_R3_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_R3_X1 { #[cbor(rename = 303)] pub y: Own<3>, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub x: u8 }
impl Subj for Y_R3_X1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<1>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_R3_X1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_R3_X1 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_R3_X1 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_R3_X1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R3_R1 { #[cbor(rename = 303)] pub bb: Own<3>, #[cbor(rename = 301)] pub a: Own<1> }
impl Subj for S_R3_R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(M::U(301), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R3_R1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R3_R1 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R3_R1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R3_R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R3_S2 { #[cbor(rename = 303)] pub bb: Own<3>, #[cbor(skip)] pub a: Own<2> }
impl Subj for S_R3_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("a"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R3_S2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R3_S2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R3_S2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R3_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R3_S2 { #[cbor(rename = 303)] pub a: Own<3>, #[cbor(skip)] pub b: Own<2> }
impl Subj for L_R3_S2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("b"), <Own<2> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R3_S2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R3_S2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R3_S2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R3_S2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R3_X2 { #[cbor(rename = 303)] pub bb: Own<3>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub a: u8 }
impl Subj for S_R3_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R3_X2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R3_X2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R3_X2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R3_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_R3_X2(#[cbor(rename = 303)] pub Own<3>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8);
impl Subj for T_R3_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_R3_X2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_R3_X2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_R3_X2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_R3_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_R3_X2 { #[cbor(rename = 303)] pub y: Own<3>, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub x: u8 }
impl Subj for Y_R3_X2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<2>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_R3_X2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_R3_X2 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_R3_X2 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_R3_X2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R3_R2 { #[cbor(rename = 303)] pub bb: Own<3>, #[cbor(rename = 302)] pub a: Own<2> }
impl Subj for S_R3_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R3_R2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R3_R2 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R3_R2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R3_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R3_R2 { #[cbor(rename = 303)] pub a: Own<3>, #[cbor(rename = 302)] pub b: Own<2> }
impl Subj for L_R3_R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(M::U(302), <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R3_R2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R3_R2 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R3_R2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R3_R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R3_S3 { #[cbor(rename = 303)] pub bb: Own<3>, #[cbor(skip)] pub a: Own<3> }
impl Subj for S_R3_S3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("a"), <Own<3> as Subj>::ty()).skipped()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R3_S3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R3_S3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R3_S3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R3_S3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R3_X3 { #[cbor(rename = 303)] pub bb: Own<3>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub a: u8 }
impl Subj for S_R3_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R3_X3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R3_X3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R3_X3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R3_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(allow_unknown)]
pub struct L_R3_X3 { #[cbor(rename = 303)] pub a: Own<3>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub b: u8 }
impl Subj for L_R3_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("b"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "L_R3_X3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: true, fields, default }))
    }
    fn to_d(&self) -> D {
        let L_R3_X3 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        L_R3_X3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for L_R3_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct T_R3_X3(#[cbor(rename = 303)] pub Own<3>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8);
impl Subj for T_R3_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "T_R3_X3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let T_R3_X3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        T_R3_X3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for T_R3_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct Y_R3_X3 { #[cbor(rename = 303)] pub y: Own<3>, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub x: u8 }
impl Subj for Y_R3_X3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<3>())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Y_R3_X3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Y_R3_X3 { y: x0, x: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Y_R3_X3 { y: Subj::from_d(&v[0]), x: Subj::from_d(&v[1]) }
    }
}
impl Default for Y_R3_X3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct S_R3_R3 { #[cbor(rename = 303)] pub bb: Own<3>, pub a: Own<1> }
impl Subj for S_R3_R3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("a"), <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "S_R3_R3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let S_R3_R3 { bb: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        S_R3_R3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for S_R3_R3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct Many { pub f0: Own<0>, #[cbor(optional)] pub f7: Own<0>, pub f14: Own<1>, #[cbor(optional)] pub f21: Own<1>, pub f28: Own<2>, #[cbor(optional)] pub f3: Own<2>, pub f10: Own<3>, #[cbor(optional)] pub f17: Own<3>, #[cbor(optional, skip_serializing_if = "is_seven")] pub f24: Own<0>, #[cbor(skip)] pub f31: Own<0>, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub f6: u8, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub f13: u8, #[cbor(optional)] pub f20: (Own<0>, u8), #[cbor(rename = 300)] pub f27: Own<0>, #[cbor(optional, skip_serializing_if = "is_seven")] pub f2: Own<1>, #[cbor(skip)] pub f9: Own<1>, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub f16: u8, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub f23: u8, #[cbor(optional)] pub f30: (Own<1>, u8), #[cbor(rename = 301)] pub f5: Own<1>, #[cbor(optional, skip_serializing_if = "is_seven")] pub f12: Own<2>, #[cbor(skip)] pub f19: Own<2>, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub f26: u8, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub f1: u8, #[cbor(optional)] pub f8: (Own<2>, u8), #[cbor(rename = 302)] pub f15: Own<2>, #[cbor(optional, skip_serializing_if = "is_seven")] pub f22: Own<3>, #[cbor(skip)] pub f29: Own<3>, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub f4: u8, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub f11: u8, #[cbor(optional)] pub f18: (Own<3>, u8), #[cbor(rename = 303)] pub f25: Own<3> }
impl Subj for Many {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f0"), <Own<0> as Subj>::ty()), fld(t("f7"), <Own<0> as Subj>::ty()).opt(), fld(t("f14"), <Own<1> as Subj>::ty()), fld(t("f21"), <Own<1> as Subj>::ty()).opt(), fld(t("f28"), <Own<2> as Subj>::ty()), fld(t("f3"), <Own<2> as Subj>::ty()).opt(), fld(t("f10"), <Own<3> as Subj>::ty()), fld(t("f17"), <Own<3> as Subj>::ty()).opt(), fld(t("f24"), <Own<0> as Subj>::ty()).opt().skip_when(seven), fld(t("f31"), <Own<0> as Subj>::ty()).skipped(), fld(t("f6"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("f13"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("f20"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("f2"), <Own<1> as Subj>::ty()).opt().skip_when(seven), fld(t("f9"), <Own<1> as Subj>::ty()).skipped(), fld(t("f16"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("f23"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("f30"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("f12"), <Own<2> as Subj>::ty()).opt().skip_when(seven), fld(t("f19"), <Own<2> as Subj>::ty()).skipped(), fld(t("f26"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("f1"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("f8"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("f22"), <Own<3> as Subj>::ty()).opt().skip_when(seven), fld(t("f29"), <Own<3> as Subj>::ty()).skipped(), fld(t("f4"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("f11"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("f18"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Many".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Many { f0: x0, f7: x1, f14: x2, f21: x3, f28: x4, f3: x5, f10: x6, f17: x7, f24: x8, f31: x9, f6: x10, f13: x11, f20: x12, f27: x13, f2: x14, f9: x15, f16: x16, f23: x17, f30: x18, f5: x19, f12: x20, f19: x21, f26: x22, f1: x23, f8: x24, f15: x25, f22: x26, f29: x27, f4: x28, f11: x29, f18: x30, f25: x31 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d(), x5.to_d(), x6.to_d(), x7.to_d(), x8.to_d(), x9.to_d(), x10.to_d(), x11.to_d(), x12.to_d(), x13.to_d(), x14.to_d(), x15.to_d(), x16.to_d(), x17.to_d(), x18.to_d(), x19.to_d(), x20.to_d(), x21.to_d(), x22.to_d(), x23.to_d(), x24.to_d(), x25.to_d(), x26.to_d(), x27.to_d(), x28.to_d(), x29.to_d(), x30.to_d(), x31.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Many { f0: Subj::from_d(&v[0]), f7: Subj::from_d(&v[1]), f14: Subj::from_d(&v[2]), f21: Subj::from_d(&v[3]), f28: Subj::from_d(&v[4]), f3: Subj::from_d(&v[5]), f10: Subj::from_d(&v[6]), f17: Subj::from_d(&v[7]), f24: Subj::from_d(&v[8]), f31: Subj::from_d(&v[9]), f6: Subj::from_d(&v[10]), f13: Subj::from_d(&v[11]), f20: Subj::from_d(&v[12]), f27: Subj::from_d(&v[13]), f2: Subj::from_d(&v[14]), f9: Subj::from_d(&v[15]), f16: Subj::from_d(&v[16]), f23: Subj::from_d(&v[17]), f30: Subj::from_d(&v[18]), f5: Subj::from_d(&v[19]), f12: Subj::from_d(&v[20]), f19: Subj::from_d(&v[21]), f26: Subj::from_d(&v[22]), f1: Subj::from_d(&v[23]), f8: Subj::from_d(&v[24]), f15: Subj::from_d(&v[25]), f22: Subj::from_d(&v[26]), f29: Subj::from_d(&v[27]), f4: Subj::from_d(&v[28]), f11: Subj::from_d(&v[29]), f18: Subj::from_d(&v[30]), f25: Subj::from_d(&v[31]) }
    }
}
impl Default for Many {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct ManyT(pub Own<0>, #[cbor(optional)] pub Own<0>, pub Own<1>, #[cbor(optional)] pub Own<1>, pub Own<2>, #[cbor(optional)] pub Own<2>, pub Own<3>, #[cbor(optional)] pub Own<3>, #[cbor(skip)] pub Own<0>, #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8, #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] pub u8, #[cbor(optional)] pub (Own<0>, u8), #[cbor(rename = 300)] pub Own<0>, #[cbor(skip)] pub Own<1>, #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8, #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] pub u8, #[cbor(optional)] pub (Own<1>, u8), #[cbor(rename = 301)] pub Own<1>, #[cbor(skip)] pub Own<2>, #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8, #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] pub u8, #[cbor(optional)] pub (Own<2>, u8), #[cbor(rename = 302)] pub Own<2>, #[cbor(skip)] pub Own<3>, #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8, #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] pub u8, #[cbor(optional)] pub (Own<3>, u8), #[cbor(rename = 303)] pub Own<3>);
impl Subj for ManyT {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty()), fld(NULL, <Own<0> as Subj>::ty()).opt(), fld(NULL, <Own<1> as Subj>::ty()), fld(NULL, <Own<1> as Subj>::ty()).opt(), fld(NULL, <Own<2> as Subj>::ty()), fld(NULL, <Own<2> as Subj>::ty()).opt(), fld(NULL, <Own<3> as Subj>::ty()), fld(NULL, <Own<3> as Subj>::ty()).opt(), fld(NULL, <Own<0> as Subj>::ty()).skipped(), fld(NULL, <u8 as Subj>::ty()).coded(coded::<0>()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(NULL, <(Own<0>, u8) as Subj>::ty()).opt(), fld(M::U(300), <Own<0> as Subj>::ty()), fld(NULL, <Own<1> as Subj>::ty()).skipped(), fld(NULL, <u8 as Subj>::ty()).coded(coded::<1>()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(NULL, <(Own<1>, u8) as Subj>::ty()).opt(), fld(M::U(301), <Own<1> as Subj>::ty()), fld(NULL, <Own<2> as Subj>::ty()).skipped(), fld(NULL, <u8 as Subj>::ty()).coded(coded::<2>()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(NULL, <(Own<2>, u8) as Subj>::ty()).opt(), fld(M::U(302), <Own<2> as Subj>::ty()), fld(NULL, <Own<3> as Subj>::ty()).skipped(), fld(NULL, <u8 as Subj>::ty()).coded(coded::<3>()), fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(NULL, <(Own<3>, u8) as Subj>::ty()).opt(), fld(M::U(303), <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "ManyT".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let ManyT(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19, x20, x21, x22, x23, x24, x25, x26, x27) = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d(), x5.to_d(), x6.to_d(), x7.to_d(), x8.to_d(), x9.to_d(), x10.to_d(), x11.to_d(), x12.to_d(), x13.to_d(), x14.to_d(), x15.to_d(), x16.to_d(), x17.to_d(), x18.to_d(), x19.to_d(), x20.to_d(), x21.to_d(), x22.to_d(), x23.to_d(), x24.to_d(), x25.to_d(), x26.to_d(), x27.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        ManyT(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2]), Subj::from_d(&v[3]), Subj::from_d(&v[4]), Subj::from_d(&v[5]), Subj::from_d(&v[6]), Subj::from_d(&v[7]), Subj::from_d(&v[8]), Subj::from_d(&v[9]), Subj::from_d(&v[10]), Subj::from_d(&v[11]), Subj::from_d(&v[12]), Subj::from_d(&v[13]), Subj::from_d(&v[14]), Subj::from_d(&v[15]), Subj::from_d(&v[16]), Subj::from_d(&v[17]), Subj::from_d(&v[18]), Subj::from_d(&v[19]), Subj::from_d(&v[20]), Subj::from_d(&v[21]), Subj::from_d(&v[22]), Subj::from_d(&v[23]), Subj::from_d(&v[24]), Subj::from_d(&v[25]), Subj::from_d(&v[26]), Subj::from_d(&v[27]))
    }
}
impl Default for ManyT {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct WT0(pub Own<0>);
impl Subj for WT0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "WT0".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WT0(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WT0(Subj::from_d(&v[0]))
    }
}
impl Default for WT0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN0(pub Own<0>);
impl Subj for WN0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<0> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN0".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN0(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN0(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW0 { #[cbor(optional)] pub a: WT0, pub b: WT0, pub c: WN0, #[cbor(optional)] pub d: Option<WN0> }
impl Subj for SW0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WT0 as Subj>::ty()).opt(), fld(t("b"), <WT0 as Subj>::ty()), fld(t("c"), <WN0 as Subj>::ty()), fld(t("d"), <Option<WN0> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW0 { a: x0, b: x1, c: x2, d: x3 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]), d: Subj::from_d(&v[3]) }
    }
}
impl Default for SW0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW0 { pub a: WT0, pub c: WN0 }
impl Subj for AW0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WT0 as Subj>::ty()), fld(t("c"), <WN0 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW0".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW0 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW0 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct WT1(pub Own<1>);
impl Subj for WT1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "WT1".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WT1(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WT1(Subj::from_d(&v[0]))
    }
}
impl Default for WT1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN1(pub Own<1>);
impl Subj for WN1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<1> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN1".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN1(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN1(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW1 { #[cbor(optional)] pub a: WT1, pub b: WT1, pub c: WN1, #[cbor(optional)] pub d: Option<WN1> }
impl Subj for SW1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WT1 as Subj>::ty()).opt(), fld(t("b"), <WT1 as Subj>::ty()), fld(t("c"), <WN1 as Subj>::ty()), fld(t("d"), <Option<WN1> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW1 { a: x0, b: x1, c: x2, d: x3 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]), d: Subj::from_d(&v[3]) }
    }
}
impl Default for SW1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW1 { pub a: WT1, pub c: WN1 }
impl Subj for AW1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WT1 as Subj>::ty()), fld(t("c"), <WN1 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW1".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW1 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW1 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct WT2(pub Own<2>);
impl Subj for WT2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "WT2".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WT2(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WT2(Subj::from_d(&v[0]))
    }
}
impl Default for WT2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN2(pub Own<2>);
impl Subj for WN2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<2> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN2".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN2(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN2(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW2 { #[cbor(optional)] pub a: WT2, pub b: WT2, pub c: WN2, #[cbor(optional)] pub d: Option<WN2> }
impl Subj for SW2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WT2 as Subj>::ty()).opt(), fld(t("b"), <WT2 as Subj>::ty()), fld(t("c"), <WN2 as Subj>::ty()), fld(t("d"), <Option<WN2> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW2 { a: x0, b: x1, c: x2, d: x3 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]), d: Subj::from_d(&v[3]) }
    }
}
impl Default for SW2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW2 { pub a: WT2, pub c: WN2 }
impl Subj for AW2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WT2 as Subj>::ty()), fld(t("c"), <WN2 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW2".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW2 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW2 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct WT3(pub Own<3>);
impl Subj for WT3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "WT3".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WT3(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WT3(Subj::from_d(&v[0]))
    }
}
impl Default for WT3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN3(pub Own<3>);
impl Subj for WN3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<3> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN3".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN3(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN3(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW3 { #[cbor(optional)] pub a: WT3, pub b: WT3, pub c: WN3, #[cbor(optional)] pub d: Option<WN3> }
impl Subj for SW3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WT3 as Subj>::ty()).opt(), fld(t("b"), <WT3 as Subj>::ty()), fld(t("c"), <WN3 as Subj>::ty()), fld(t("d"), <Option<WN3> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW3 { a: x0, b: x1, c: x2, d: x3 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]), d: Subj::from_d(&v[3]) }
    }
}
impl Default for SW3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW3 { pub a: WT3, pub c: WN3 }
impl Subj for AW3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WT3 as Subj>::ty()), fld(t("c"), <WN3 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW3".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW3 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW3 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct WT4(pub Own<4>);
impl Subj for WT4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<4> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "WT4".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WT4(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WT4(Subj::from_d(&v[0]))
    }
}
impl Default for WT4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN4(pub Own<4>);
impl Subj for WN4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Own<4> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN4".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN4(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN4(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW4 { #[cbor(optional)] pub a: WT4, pub b: WT4, pub c: WN4, #[cbor(optional)] pub d: Option<WN4> }
impl Subj for SW4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WT4 as Subj>::ty()).opt(), fld(t("b"), <WT4 as Subj>::ty()), fld(t("c"), <WN4 as Subj>::ty()), fld(t("d"), <Option<WN4> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW4".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW4 { a: x0, b: x1, c: x2, d: x3 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW4 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]), d: Subj::from_d(&v[3]) }
    }
}
impl Default for SW4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW4 { pub a: WT4, pub c: WN4 }
impl Subj for AW4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WT4 as Subj>::ty()), fld(t("c"), <WN4 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW4".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW4 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW4 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct WT5(pub Option<Own<1>>);
impl Subj for WT5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<Own<1>> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "WT5".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WT5(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WT5(Subj::from_d(&v[0]))
    }
}
impl Default for WT5 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN5(pub Option<Own<1>>);
impl Subj for WN5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<Own<1>> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN5".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN5(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN5(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW5 { #[cbor(optional)] pub a: WT5, pub b: WT5, pub c: WN5, #[cbor(optional)] pub d: Option<WN5> }
impl Subj for SW5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WT5 as Subj>::ty()).opt(), fld(t("b"), <WT5 as Subj>::ty()), fld(t("c"), <WN5 as Subj>::ty()), fld(t("d"), <Option<WN5> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW5".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW5 { a: x0, b: x1, c: x2, d: x3 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW5 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]), d: Subj::from_d(&v[3]) }
    }
}
impl Default for SW5 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW5 { pub a: WT5, pub c: WN5 }
impl Subj for AW5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WT5 as Subj>::ty()), fld(t("c"), <WN5 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW5".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW5 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW5 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW5 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct WT6(pub Vec<Own<2>>);
impl Subj for WT6 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<Own<2>> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "WT6".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WT6(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WT6(Subj::from_d(&v[0]))
    }
}
impl Default for WT6 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN6(pub Vec<Own<2>>);
impl Subj for WN6 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<Own<2>> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN6".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN6(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN6(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW6 { #[cbor(optional)] pub a: WT6, pub b: WT6, pub c: WN6, #[cbor(optional)] pub d: Option<WN6> }
impl Subj for SW6 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WT6 as Subj>::ty()).opt(), fld(t("b"), <WT6 as Subj>::ty()), fld(t("c"), <WN6 as Subj>::ty()), fld(t("d"), <Option<WN6> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW6".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW6 { a: x0, b: x1, c: x2, d: x3 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW6 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]), d: Subj::from_d(&v[3]) }
    }
}
impl Default for SW6 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW6 { pub a: WT6, pub c: WN6 }
impl Subj for AW6 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WT6 as Subj>::ty()), fld(t("c"), <WN6 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW6".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW6 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW6 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW6 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct WT7(pub WT1);
impl Subj for WT7 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <WT1 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "WT7".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WT7(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WT7(Subj::from_d(&v[0]))
    }
}
impl Default for WT7 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN7(pub WT1);
impl Subj for WN7 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <WT1 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN7".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN7(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN7(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW7 { #[cbor(optional)] pub a: WT7, pub b: WT7, pub c: WN7, #[cbor(optional)] pub d: Option<WN7> }
impl Subj for SW7 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WT7 as Subj>::ty()).opt(), fld(t("b"), <WT7 as Subj>::ty()), fld(t("c"), <WN7 as Subj>::ty()), fld(t("d"), <Option<WN7> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW7".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW7 { a: x0, b: x1, c: x2, d: x3 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW7 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]), d: Subj::from_d(&v[3]) }
    }
}
impl Default for SW7 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW7 { pub a: WT7, pub c: WN7 }
impl Subj for AW7 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WT7 as Subj>::ty()), fld(t("c"), <WN7 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW7".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW7 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW7 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW7 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct WT8(pub WT2);
impl Subj for WT8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <WT2 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "WT8".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WT8(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WT8(Subj::from_d(&v[0]))
    }
}
impl Default for WT8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN8(pub WT2);
impl Subj for WN8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <WT2 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN8".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN8(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN8(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW8 { #[cbor(optional)] pub a: WT8, pub b: WT8, pub c: WN8, #[cbor(optional)] pub d: Option<WN8> }
impl Subj for SW8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WT8 as Subj>::ty()).opt(), fld(t("b"), <WT8 as Subj>::ty()), fld(t("c"), <WN8 as Subj>::ty()), fld(t("d"), <Option<WN8> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW8 { a: x0, b: x1, c: x2, d: x3 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW8 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]), d: Subj::from_d(&v[3]) }
    }
}
impl Default for SW8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW8 { pub a: WT8, pub c: WN8 }
impl Subj for AW8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WT8 as Subj>::ty()), fld(t("c"), <WN8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW8".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW8 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW8 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct WT9(pub (Own<1>, Own<3>));
impl Subj for WT9 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<1>, Own<3>) as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "WT9".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WT9(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WT9(Subj::from_d(&v[0]))
    }
}
impl Default for WT9 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN9(pub (Own<1>, Own<3>));
impl Subj for WN9 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(Own<1>, Own<3>) as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN9".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN9(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN9(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW9 { #[cbor(optional)] pub a: WT9, pub b: WT9, pub c: WN9, #[cbor(optional)] pub d: Option<WN9> }
impl Subj for SW9 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WT9 as Subj>::ty()).opt(), fld(t("b"), <WT9 as Subj>::ty()), fld(t("c"), <WN9 as Subj>::ty()), fld(t("d"), <Option<WN9> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW9".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW9 { a: x0, b: x1, c: x2, d: x3 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW9 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]), d: Subj::from_d(&v[3]) }
    }
}
impl Default for SW9 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW9 { pub a: WT9, pub c: WN9 }
impl Subj for AW9 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WT9 as Subj>::ty()), fld(t("c"), <WN9 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW9".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW9 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW9 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW9 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct WT10(pub WT3);
impl Subj for WT10 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <WT3 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "WT10".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WT10(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WT10(Subj::from_d(&v[0]))
    }
}
impl Default for WT10 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct WN10(pub WT3);
impl Subj for WN10 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <WT3 as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "WN10".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let WN10(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        WN10(Subj::from_d(&v[0]))
    }
}
#[derive(Encode, Decode)]
pub struct SW10 { #[cbor(optional)] pub a: WT10, pub b: WT10, pub c: WN10, #[cbor(optional)] pub d: Option<WN10> }
impl Subj for SW10 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WT10 as Subj>::ty()).opt(), fld(t("b"), <WT10 as Subj>::ty()), fld(t("c"), <WN10 as Subj>::ty()), fld(t("d"), <Option<WN10> as Subj>::ty()).opt()];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SW10".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SW10 { a: x0, b: x1, c: x2, d: x3 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SW10 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]), d: Subj::from_d(&v[3]) }
    }
}
impl Default for SW10 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(as_array)]
pub struct AW10 { pub a: WT10, pub c: WN10 }
impl Subj for AW10 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <WT10 as Subj>::ty()), fld(t("c"), <WN10 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW10".into(), shape: Shape::Named, transparent: false, as_array: true, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW10 { a: x0, c: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW10 { a: Subj::from_d(&v[0]), c: Subj::from_d(&v[1]) }
    }
}
impl Default for AW10 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct H0 { pub a: S_O1, #[cbor(optional)] pub b: Option<S_O1>, pub c: Vec<S_O1> }
impl Subj for H0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <S_O1 as Subj>::ty()), fld(t("b"), <Option<S_O1> as Subj>::ty()).opt(), fld(t("c"), <Vec<S_O1> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "H0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let H0 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        H0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct HT0(pub S_O1, pub BTreeMap<u8, S_O1>);
impl Subj for HT0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <S_O1 as Subj>::ty()), fld(NULL, <BTreeMap<u8, S_O1> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "HT0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let HT0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        HT0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
#[derive(Encode, Decode)]
pub struct HO0 { #[cbor(optional)] pub a: S_O1, pub b: S_O1 }
impl Subj for HO0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <S_O1 as Subj>::ty()).opt(), fld(t("b"), <S_O1 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "HO0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let HO0 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        HO0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for HO0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct H1 { pub a: S_O2_P1, #[cbor(optional)] pub b: Option<S_O2_P1>, pub c: Vec<S_O2_P1> }
impl Subj for H1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <S_O2_P1 as Subj>::ty()), fld(t("b"), <Option<S_O2_P1> as Subj>::ty()).opt(), fld(t("c"), <Vec<S_O2_P1> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "H1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let H1 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        H1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct HT1(pub S_O2_P1, pub BTreeMap<u8, S_O2_P1>);
impl Subj for HT1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <S_O2_P1 as Subj>::ty()), fld(NULL, <BTreeMap<u8, S_O2_P1> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "HT1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let HT1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        HT1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
#[derive(Encode, Decode)]
pub struct HO1 { #[cbor(optional)] pub a: S_O2_P1, pub b: S_O2_P1 }
impl Subj for HO1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <S_O2_P1 as Subj>::ty()).opt(), fld(t("b"), <S_O2_P1 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "HO1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let HO1 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        HO1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for HO1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct H2 { pub a: N_P3, #[cbor(optional)] pub b: Option<N_P3>, pub c: Vec<N_P3> }
impl Subj for H2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <N_P3 as Subj>::ty()), fld(t("b"), <Option<N_P3> as Subj>::ty()).opt(), fld(t("c"), <Vec<N_P3> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "H2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let H2 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        H2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct HT2(pub N_P3, pub BTreeMap<u8, N_P3>);
impl Subj for HT2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <N_P3 as Subj>::ty()), fld(NULL, <BTreeMap<u8, N_P3> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "HT2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let HT2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        HT2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct H3 { pub a: T_P1, #[cbor(optional)] pub b: Option<T_P1>, pub c: Vec<T_P1> }
impl Subj for H3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <T_P1 as Subj>::ty()), fld(t("b"), <Option<T_P1> as Subj>::ty()).opt(), fld(t("c"), <Vec<T_P1> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "H3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let H3 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        H3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct HT3(pub T_P1, pub BTreeMap<u8, T_P1>);
impl Subj for HT3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <T_P1 as Subj>::ty()), fld(NULL, <BTreeMap<u8, T_P1> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "HT3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let HT3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        HT3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct H4 { pub a: Y_O2, #[cbor(optional)] pub b: Option<Y_O2>, pub c: Vec<Y_O2> }
impl Subj for H4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <Y_O2 as Subj>::ty()), fld(t("b"), <Option<Y_O2> as Subj>::ty()).opt(), fld(t("c"), <Vec<Y_O2> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "H4".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let H4 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        H4 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct HT4(pub Y_O2, pub BTreeMap<u8, Y_O2>);
impl Subj for HT4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Y_O2 as Subj>::ty()), fld(NULL, <BTreeMap<u8, Y_O2> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "HT4".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let HT4(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        HT4(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct H5 { pub a: S_L1, #[cbor(optional)] pub b: Option<S_L1>, pub c: Vec<S_L1> }
impl Subj for H5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <S_L1 as Subj>::ty()), fld(t("b"), <Option<S_L1> as Subj>::ty()).opt(), fld(t("c"), <Vec<S_L1> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "H5".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let H5 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        H5 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct HT5(pub S_L1, pub BTreeMap<u8, S_L1>);
impl Subj for HT5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <S_L1 as Subj>::ty()), fld(NULL, <BTreeMap<u8, S_L1> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "HT5".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let HT5(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        HT5(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
#[derive(Encode, Decode)]
pub struct HO5 { #[cbor(optional)] pub a: S_L1, pub b: S_L1 }
impl Subj for HO5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <S_L1 as Subj>::ty()).opt(), fld(t("b"), <S_L1 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "HO5".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let HO5 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        HO5 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for HO5 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct H6 { pub a: S_X2, #[cbor(optional)] pub b: Option<S_X2>, pub c: Vec<S_X2> }
impl Subj for H6 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <S_X2 as Subj>::ty()), fld(t("b"), <Option<S_X2> as Subj>::ty()).opt(), fld(t("c"), <Vec<S_X2> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "H6".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let H6 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        H6 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct HT6(pub S_X2, pub BTreeMap<u8, S_X2>);
impl Subj for HT6 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <S_X2 as Subj>::ty()), fld(NULL, <BTreeMap<u8, S_X2> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "HT6".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let HT6(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        HT6(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
#[derive(Encode, Decode)]
pub struct HO6 { #[cbor(optional)] pub a: S_X2, pub b: S_X2 }
impl Subj for HO6 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <S_X2 as Subj>::ty()).opt(), fld(t("b"), <S_X2 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "HO6".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let HO6 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        HO6 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for HO6 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct H7 { pub a: S_I0_I0, #[cbor(optional)] pub b: Option<S_I0_I0>, pub c: Vec<S_I0_I0> }
impl Subj for H7 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <S_I0_I0 as Subj>::ty()), fld(t("b"), <Option<S_I0_I0> as Subj>::ty()).opt(), fld(t("c"), <Vec<S_I0_I0> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "H7".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let H7 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        H7 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct HT7(pub S_I0_I0, pub BTreeMap<u8, S_I0_I0>);
impl Subj for HT7 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <S_I0_I0 as Subj>::ty()), fld(NULL, <BTreeMap<u8, S_I0_I0> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "HT7".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let HT7(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        HT7(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
#[derive(Encode, Decode)]
pub struct HO7 { #[cbor(optional)] pub a: S_I0_I0, pub b: S_I0_I0 }
impl Subj for HO7 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <S_I0_I0 as Subj>::ty()).opt(), fld(t("b"), <S_I0_I0 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "HO7".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let HO7 { a: x0, b: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        HO7 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]) }
    }
}
impl Default for HO7 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub enum E_NewP0 {
    A,
    B(Own<0>),
}
impl Subj for E_NewP0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NewP0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<0> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NewP0::A => D::Var(0, vec![]),
            E_NewP0::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NewP0::A,
            1 => E_NewP0::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_NewP0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_NewP0 {
    A,
    B(Own<0>),
}
impl Subj for U_NewP0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_NewP0".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<0> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_NewP0::A => D::Var(0, vec![]),
            U_NewP0::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_NewP0::A,
            1 => U_NewP0::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_NewP0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_NewP0 {
    A,
    B(Own<0>),
}
impl Subj for D_NewP0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_NewP0".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<0> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_NewP0::A => D::Var(0, vec![]),
            D_NewP0::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_NewP0::A,
            1 => D_NewP0::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_NewP0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoP0 {
    A,
    B(Own<0>, u8),
}
impl Subj for E_TwoP0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoP0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<0> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoP0::A => D::Var(0, vec![]),
            E_TwoP0::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoP0::A,
            1 => E_TwoP0::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoP0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecP0 {
    A,
    B { x: Own<0>, y: u8 },
}
impl Subj for E_RecP0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecP0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<0> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecP0::A => D::Var(0, vec![]),
            E_RecP0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecP0::A,
            1 => E_RecP0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecP0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecP0 {
    A,
    B { x: Own<0>, y: u8 },
}
impl Subj for G_RecP0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecP0".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<0> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecP0::A => D::Var(0, vec![]),
            G_RecP0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecP0::A,
            1 => G_RecP0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecP0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecP0 {
    A,
    #[cbor(missing)] B { x: Own<0>, y: u8 },
}
impl Subj for M_RecP0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecP0".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <Own<0> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecP0::A => D::Var(0, vec![]),
            M_RecP0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecP0::A,
            1 => M_RecP0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecP0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrP0 {
    A,
    #[cbor(as_array)] B { x: Own<0>, y: u8 },
}
impl Subj for E_ArrP0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrP0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<0> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrP0::A => D::Var(0, vec![]),
            E_ArrP0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrP0::A,
            1 => E_ArrP0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrP0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_ArrP0 {
    A,
    #[cbor(as_array)] B { x: Own<0>, y: u8 },
}
impl Subj for U_ArrP0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_ArrP0".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<0> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_ArrP0::A => D::Var(0, vec![]),
            U_ArrP0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_ArrP0::A,
            1 => U_ArrP0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_ArrP0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_ArrP0 {
    A,
    #[cbor(as_array)] B { x: Own<0>, y: u8 },
}
impl Subj for D_ArrP0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_ArrP0".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<0> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_ArrP0::A => D::Var(0, vec![]),
            D_ArrP0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_ArrP0::A,
            1 => D_ArrP0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_ArrP0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkP0 {
    A,
    #[cbor(allow_unknown)] B { x: Own<0> },
}
impl Subj for E_UnkP0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkP0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<0> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkP0::A => D::Var(0, vec![]),
            E_UnkP0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkP0::A,
            1 => E_UnkP0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkP0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkP0 {
    A,
    #[cbor(allow_unknown)] B { x: Own<0> },
}
impl Subj for G_UnkP0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkP0".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<0> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkP0::A => D::Var(0, vec![]),
            G_UnkP0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkP0::A,
            1 => G_UnkP0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkP0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkP0 {
    A,
    #[cbor(allow_unknown, missing)] B { x: Own<0> },
}
impl Subj for M_UnkP0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkP0".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <Own<0> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkP0::A => D::Var(0, vec![]),
            M_UnkP0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkP0::A,
            1 => M_UnkP0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkP0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoO0 {
    A,
    B(#[cbor(optional)] Own<0>, u8),
}
impl Subj for E_TwoO0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoO0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<0> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoO0::A => D::Var(0, vec![]),
            E_TwoO0::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoO0::A,
            1 => E_TwoO0::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoO0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_TwoO0 {
    A,
    B(#[cbor(optional)] Own<0>, u8),
}
impl Subj for U_TwoO0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_TwoO0".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<0> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_TwoO0::A => D::Var(0, vec![]),
            U_TwoO0::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_TwoO0::A,
            1 => U_TwoO0::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_TwoO0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_TwoO0 {
    A,
    B(#[cbor(optional)] Own<0>, u8),
}
impl Subj for D_TwoO0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_TwoO0".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<0> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_TwoO0::A => D::Var(0, vec![]),
            D_TwoO0::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_TwoO0::A,
            1 => D_TwoO0::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_TwoO0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecO0 {
    A,
    B { #[cbor(optional)] x: Own<0>, y: u8 },
}
impl Subj for E_RecO0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecO0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<0> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecO0::A => D::Var(0, vec![]),
            E_RecO0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecO0::A,
            1 => E_RecO0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecO0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecO0 {
    A,
    B { #[cbor(optional)] x: Own<0>, y: u8 },
}
impl Subj for G_RecO0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecO0".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<0> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecO0::A => D::Var(0, vec![]),
            G_RecO0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecO0::A,
            1 => G_RecO0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecO0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecO0 {
    A,
    #[cbor(missing)] B { #[cbor(optional)] x: Own<0>, y: u8 },
}
impl Subj for M_RecO0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecO0".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <Own<0> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecO0::A => D::Var(0, vec![]),
            M_RecO0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecO0::A,
            1 => M_RecO0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecO0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrO0 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: Own<0>, y: u8 },
}
impl Subj for E_ArrO0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrO0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<0> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrO0::A => D::Var(0, vec![]),
            E_ArrO0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrO0::A,
            1 => E_ArrO0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrO0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkO0 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Own<0> },
}
impl Subj for E_UnkO0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkO0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<0> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkO0::A => D::Var(0, vec![]),
            E_UnkO0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkO0::A,
            1 => E_UnkO0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkO0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_UnkO0 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Own<0> },
}
impl Subj for U_UnkO0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_UnkO0".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<0> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_UnkO0::A => D::Var(0, vec![]),
            U_UnkO0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_UnkO0::A,
            1 => U_UnkO0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_UnkO0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_UnkO0 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Own<0> },
}
impl Subj for D_UnkO0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_UnkO0".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<0> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_UnkO0::A => D::Var(0, vec![]),
            D_UnkO0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_UnkO0::A,
            1 => D_UnkO0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_UnkO0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkO0 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Own<0> },
}
impl Subj for G_UnkO0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkO0".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<0> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkO0::A => D::Var(0, vec![]),
            G_UnkO0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkO0::A,
            1 => G_UnkO0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkO0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkO0 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional)] x: Own<0> },
}
impl Subj for M_UnkO0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkO0".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <Own<0> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkO0::A => D::Var(0, vec![]),
            M_UnkO0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkO0::A,
            1 => M_UnkO0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkO0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_NewL0 {
    A,
    B(Option<Own<0>>),
}
impl Subj for E_NewL0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NewL0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<Own<0>> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NewL0::A => D::Var(0, vec![]),
            E_NewL0::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NewL0::A,
            1 => E_NewL0::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_NewL0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoL0 {
    A,
    B(#[cbor(optional)] Option<Own<0>>, u8),
}
impl Subj for E_TwoL0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoL0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<Own<0>> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoL0::A => D::Var(0, vec![]),
            E_TwoL0::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoL0::A,
            1 => E_TwoL0::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoL0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecL0 {
    A,
    B { #[cbor(optional)] x: Option<Own<0>>, y: u8 },
}
impl Subj for E_RecL0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecL0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Option<Own<0>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecL0::A => D::Var(0, vec![]),
            E_RecL0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecL0::A,
            1 => E_RecL0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecL0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_RecL0 {
    A,
    B { #[cbor(optional)] x: Option<Own<0>>, y: u8 },
}
impl Subj for U_RecL0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_RecL0".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Option<Own<0>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_RecL0::A => D::Var(0, vec![]),
            U_RecL0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_RecL0::A,
            1 => U_RecL0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_RecL0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_RecL0 {
    A,
    B { #[cbor(optional)] x: Option<Own<0>>, y: u8 },
}
impl Subj for D_RecL0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_RecL0".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Option<Own<0>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_RecL0::A => D::Var(0, vec![]),
            D_RecL0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_RecL0::A,
            1 => D_RecL0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_RecL0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecL0 {
    A,
    B { #[cbor(optional)] x: Option<Own<0>>, y: u8 },
}
impl Subj for G_RecL0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecL0".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Option<Own<0>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecL0::A => D::Var(0, vec![]),
            G_RecL0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecL0::A,
            1 => G_RecL0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecL0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecL0 {
    A,
    #[cbor(missing)] B { #[cbor(optional)] x: Option<Own<0>>, y: u8 },
}
impl Subj for M_RecL0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecL0".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <Option<Own<0>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecL0::A => D::Var(0, vec![]),
            M_RecL0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecL0::A,
            1 => M_RecL0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecL0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrL0 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: Option<Own<0>>, y: u8 },
}
impl Subj for E_ArrL0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrL0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Option<Own<0>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrL0::A => D::Var(0, vec![]),
            E_ArrL0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrL0::A,
            1 => E_ArrL0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrL0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkL0 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Option<Own<0>> },
}
impl Subj for E_UnkL0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkL0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Option<Own<0>> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkL0::A => D::Var(0, vec![]),
            E_UnkL0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkL0::A,
            1 => E_UnkL0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkL0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkL0 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Option<Own<0>> },
}
impl Subj for G_UnkL0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkL0".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Option<Own<0>> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkL0::A => D::Var(0, vec![]),
            G_UnkL0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkL0::A,
            1 => G_UnkL0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkL0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkL0 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional)] x: Option<Own<0>> },
}
impl Subj for M_UnkL0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkL0".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <Option<Own<0>> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkL0::A => D::Var(0, vec![]),
            M_UnkL0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkL0::A,
            1 => M_UnkL0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkL0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_NewP1 {
    A,
    B(Own<1>),
}
impl Subj for E_NewP1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NewP1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<1> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NewP1::A => D::Var(0, vec![]),
            E_NewP1::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NewP1::A,
            1 => E_NewP1::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_NewP1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_NewP1 {
    A,
    B(Own<1>),
}
impl Subj for U_NewP1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_NewP1".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<1> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_NewP1::A => D::Var(0, vec![]),
            U_NewP1::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_NewP1::A,
            1 => U_NewP1::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_NewP1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_NewP1 {
    A,
    B(Own<1>),
}
impl Subj for D_NewP1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_NewP1".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<1> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_NewP1::A => D::Var(0, vec![]),
            D_NewP1::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_NewP1::A,
            1 => D_NewP1::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_NewP1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoP1 {
    A,
    B(Own<1>, u8),
}
impl Subj for E_TwoP1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoP1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<1> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoP1::A => D::Var(0, vec![]),
            E_TwoP1::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoP1::A,
            1 => E_TwoP1::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoP1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecP1 {
    A,
    B { x: Own<1>, y: u8 },
}
impl Subj for E_RecP1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecP1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<1> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecP1::A => D::Var(0, vec![]),
            E_RecP1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecP1::A,
            1 => E_RecP1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecP1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecP1 {
    A,
    B { x: Own<1>, y: u8 },
}
impl Subj for G_RecP1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecP1".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<1> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecP1::A => D::Var(0, vec![]),
            G_RecP1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecP1::A,
            1 => G_RecP1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecP1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecP1 {
    A,
    #[cbor(missing)] B { x: Own<1>, y: u8 },
}
impl Subj for M_RecP1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecP1".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <Own<1> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecP1::A => D::Var(0, vec![]),
            M_RecP1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecP1::A,
            1 => M_RecP1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecP1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrP1 {
    A,
    #[cbor(as_array)] B { x: Own<1>, y: u8 },
}
impl Subj for E_ArrP1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrP1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<1> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrP1::A => D::Var(0, vec![]),
            E_ArrP1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrP1::A,
            1 => E_ArrP1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrP1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_ArrP1 {
    A,
    #[cbor(as_array)] B { x: Own<1>, y: u8 },
}
impl Subj for U_ArrP1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_ArrP1".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<1> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_ArrP1::A => D::Var(0, vec![]),
            U_ArrP1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_ArrP1::A,
            1 => U_ArrP1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_ArrP1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_ArrP1 {
    A,
    #[cbor(as_array)] B { x: Own<1>, y: u8 },
}
impl Subj for D_ArrP1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_ArrP1".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<1> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_ArrP1::A => D::Var(0, vec![]),
            D_ArrP1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_ArrP1::A,
            1 => D_ArrP1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_ArrP1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkP1 {
    A,
    #[cbor(allow_unknown)] B { x: Own<1> },
}
impl Subj for E_UnkP1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkP1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<1> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkP1::A => D::Var(0, vec![]),
            E_UnkP1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkP1::A,
            1 => E_UnkP1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkP1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkP1 {
    A,
    #[cbor(allow_unknown)] B { x: Own<1> },
}
impl Subj for G_UnkP1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkP1".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<1> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkP1::A => D::Var(0, vec![]),
            G_UnkP1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkP1::A,
            1 => G_UnkP1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkP1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkP1 {
    A,
    #[cbor(allow_unknown, missing)] B { x: Own<1> },
}
impl Subj for M_UnkP1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkP1".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <Own<1> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkP1::A => D::Var(0, vec![]),
            M_UnkP1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkP1::A,
            1 => M_UnkP1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkP1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoO1 {
    A,
    B(#[cbor(optional)] Own<1>, u8),
}
impl Subj for E_TwoO1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoO1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<1> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoO1::A => D::Var(0, vec![]),
            E_TwoO1::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoO1::A,
            1 => E_TwoO1::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoO1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_TwoO1 {
    A,
    B(#[cbor(optional)] Own<1>, u8),
}
impl Subj for U_TwoO1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_TwoO1".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<1> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_TwoO1::A => D::Var(0, vec![]),
            U_TwoO1::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_TwoO1::A,
            1 => U_TwoO1::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_TwoO1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_TwoO1 {
    A,
    B(#[cbor(optional)] Own<1>, u8),
}
impl Subj for D_TwoO1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_TwoO1".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<1> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_TwoO1::A => D::Var(0, vec![]),
            D_TwoO1::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_TwoO1::A,
            1 => D_TwoO1::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_TwoO1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecO1 {
    A,
    B { #[cbor(optional)] x: Own<1>, y: u8 },
}
impl Subj for E_RecO1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecO1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<1> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecO1::A => D::Var(0, vec![]),
            E_RecO1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecO1::A,
            1 => E_RecO1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecO1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecO1 {
    A,
    B { #[cbor(optional)] x: Own<1>, y: u8 },
}
impl Subj for G_RecO1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecO1".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<1> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecO1::A => D::Var(0, vec![]),
            G_RecO1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecO1::A,
            1 => G_RecO1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecO1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecO1 {
    A,
    #[cbor(missing)] B { #[cbor(optional)] x: Own<1>, y: u8 },
}
impl Subj for M_RecO1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecO1".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <Own<1> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecO1::A => D::Var(0, vec![]),
            M_RecO1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecO1::A,
            1 => M_RecO1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecO1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrO1 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: Own<1>, y: u8 },
}
impl Subj for E_ArrO1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrO1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<1> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrO1::A => D::Var(0, vec![]),
            E_ArrO1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrO1::A,
            1 => E_ArrO1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrO1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkO1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Own<1> },
}
impl Subj for E_UnkO1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkO1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<1> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkO1::A => D::Var(0, vec![]),
            E_UnkO1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkO1::A,
            1 => E_UnkO1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkO1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_UnkO1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Own<1> },
}
impl Subj for U_UnkO1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_UnkO1".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<1> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_UnkO1::A => D::Var(0, vec![]),
            U_UnkO1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_UnkO1::A,
            1 => U_UnkO1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_UnkO1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_UnkO1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Own<1> },
}
impl Subj for D_UnkO1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_UnkO1".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<1> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_UnkO1::A => D::Var(0, vec![]),
            D_UnkO1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_UnkO1::A,
            1 => D_UnkO1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_UnkO1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkO1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Own<1> },
}
impl Subj for G_UnkO1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkO1".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<1> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkO1::A => D::Var(0, vec![]),
            G_UnkO1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkO1::A,
            1 => G_UnkO1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkO1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkO1 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional)] x: Own<1> },
}
impl Subj for M_UnkO1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkO1".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <Own<1> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkO1::A => D::Var(0, vec![]),
            M_UnkO1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkO1::A,
            1 => M_UnkO1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkO1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_NewL1 {
    A,
    B(Option<Own<1>>),
}
impl Subj for E_NewL1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NewL1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<Own<1>> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NewL1::A => D::Var(0, vec![]),
            E_NewL1::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NewL1::A,
            1 => E_NewL1::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_NewL1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoL1 {
    A,
    B(#[cbor(optional)] Option<Own<1>>, u8),
}
impl Subj for E_TwoL1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoL1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<Own<1>> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoL1::A => D::Var(0, vec![]),
            E_TwoL1::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoL1::A,
            1 => E_TwoL1::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoL1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecL1 {
    A,
    B { #[cbor(optional)] x: Option<Own<1>>, y: u8 },
}
impl Subj for E_RecL1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecL1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Option<Own<1>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecL1::A => D::Var(0, vec![]),
            E_RecL1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecL1::A,
            1 => E_RecL1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecL1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_RecL1 {
    A,
    B { #[cbor(optional)] x: Option<Own<1>>, y: u8 },
}
impl Subj for U_RecL1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_RecL1".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Option<Own<1>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_RecL1::A => D::Var(0, vec![]),
            U_RecL1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_RecL1::A,
            1 => U_RecL1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_RecL1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_RecL1 {
    A,
    B { #[cbor(optional)] x: Option<Own<1>>, y: u8 },
}
impl Subj for D_RecL1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_RecL1".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Option<Own<1>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_RecL1::A => D::Var(0, vec![]),
            D_RecL1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_RecL1::A,
            1 => D_RecL1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_RecL1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecL1 {
    A,
    B { #[cbor(optional)] x: Option<Own<1>>, y: u8 },
}
impl Subj for G_RecL1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecL1".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Option<Own<1>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecL1::A => D::Var(0, vec![]),
            G_RecL1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecL1::A,
            1 => G_RecL1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecL1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecL1 {
    A,
    #[cbor(missing)] B { #[cbor(optional)] x: Option<Own<1>>, y: u8 },
}
impl Subj for M_RecL1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecL1".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <Option<Own<1>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecL1::A => D::Var(0, vec![]),
            M_RecL1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecL1::A,
            1 => M_RecL1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecL1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrL1 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: Option<Own<1>>, y: u8 },
}
impl Subj for E_ArrL1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrL1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Option<Own<1>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrL1::A => D::Var(0, vec![]),
            E_ArrL1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrL1::A,
            1 => E_ArrL1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrL1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkL1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Option<Own<1>> },
}
impl Subj for E_UnkL1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkL1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Option<Own<1>> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkL1::A => D::Var(0, vec![]),
            E_UnkL1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkL1::A,
            1 => E_UnkL1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkL1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkL1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Option<Own<1>> },
}
impl Subj for G_UnkL1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkL1".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Option<Own<1>> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkL1::A => D::Var(0, vec![]),
            G_UnkL1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkL1::A,
            1 => G_UnkL1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkL1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkL1 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional)] x: Option<Own<1>> },
}
impl Subj for M_UnkL1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkL1".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <Option<Own<1>> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkL1::A => D::Var(0, vec![]),
            M_UnkL1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkL1::A,
            1 => M_UnkL1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkL1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_NewP2 {
    A,
    B(Own<2>),
}
impl Subj for E_NewP2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NewP2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<2> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NewP2::A => D::Var(0, vec![]),
            E_NewP2::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NewP2::A,
            1 => E_NewP2::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_NewP2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_NewP2 {
    A,
    B(Own<2>),
}
impl Subj for U_NewP2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_NewP2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<2> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_NewP2::A => D::Var(0, vec![]),
            U_NewP2::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_NewP2::A,
            1 => U_NewP2::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_NewP2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_NewP2 {
    A,
    B(Own<2>),
}
impl Subj for D_NewP2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_NewP2".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<2> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_NewP2::A => D::Var(0, vec![]),
            D_NewP2::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_NewP2::A,
            1 => D_NewP2::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_NewP2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoP2 {
    A,
    B(Own<2>, u8),
}
impl Subj for E_TwoP2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoP2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<2> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoP2::A => D::Var(0, vec![]),
            E_TwoP2::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoP2::A,
            1 => E_TwoP2::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoP2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecP2 {
    A,
    B { x: Own<2>, y: u8 },
}
impl Subj for E_RecP2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecP2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecP2::A => D::Var(0, vec![]),
            E_RecP2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecP2::A,
            1 => E_RecP2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecP2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecP2 {
    A,
    B { x: Own<2>, y: u8 },
}
impl Subj for G_RecP2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecP2".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecP2::A => D::Var(0, vec![]),
            G_RecP2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecP2::A,
            1 => G_RecP2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecP2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecP2 {
    A,
    #[cbor(missing)] B { x: Own<2>, y: u8 },
}
impl Subj for M_RecP2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecP2".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecP2::A => D::Var(0, vec![]),
            M_RecP2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecP2::A,
            1 => M_RecP2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecP2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrP2 {
    A,
    #[cbor(as_array)] B { x: Own<2>, y: u8 },
}
impl Subj for E_ArrP2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrP2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrP2::A => D::Var(0, vec![]),
            E_ArrP2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrP2::A,
            1 => E_ArrP2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrP2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_ArrP2 {
    A,
    #[cbor(as_array)] B { x: Own<2>, y: u8 },
}
impl Subj for U_ArrP2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_ArrP2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_ArrP2::A => D::Var(0, vec![]),
            U_ArrP2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_ArrP2::A,
            1 => U_ArrP2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_ArrP2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_ArrP2 {
    A,
    #[cbor(as_array)] B { x: Own<2>, y: u8 },
}
impl Subj for D_ArrP2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_ArrP2".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_ArrP2::A => D::Var(0, vec![]),
            D_ArrP2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_ArrP2::A,
            1 => D_ArrP2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_ArrP2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkP2 {
    A,
    #[cbor(allow_unknown)] B { x: Own<2> },
}
impl Subj for E_UnkP2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkP2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkP2::A => D::Var(0, vec![]),
            E_UnkP2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkP2::A,
            1 => E_UnkP2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkP2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkP2 {
    A,
    #[cbor(allow_unknown)] B { x: Own<2> },
}
impl Subj for G_UnkP2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkP2".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkP2::A => D::Var(0, vec![]),
            G_UnkP2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkP2::A,
            1 => G_UnkP2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkP2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkP2 {
    A,
    #[cbor(allow_unknown, missing)] B { x: Own<2> },
}
impl Subj for M_UnkP2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkP2".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <Own<2> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkP2::A => D::Var(0, vec![]),
            M_UnkP2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkP2::A,
            1 => M_UnkP2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkP2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoO2 {
    A,
    B(#[cbor(optional)] Own<2>, u8),
}
impl Subj for E_TwoO2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoO2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<2> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoO2::A => D::Var(0, vec![]),
            E_TwoO2::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoO2::A,
            1 => E_TwoO2::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoO2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_TwoO2 {
    A,
    B(#[cbor(optional)] Own<2>, u8),
}
impl Subj for U_TwoO2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_TwoO2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<2> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_TwoO2::A => D::Var(0, vec![]),
            U_TwoO2::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_TwoO2::A,
            1 => U_TwoO2::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_TwoO2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_TwoO2 {
    A,
    B(#[cbor(optional)] Own<2>, u8),
}
impl Subj for D_TwoO2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_TwoO2".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<2> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_TwoO2::A => D::Var(0, vec![]),
            D_TwoO2::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_TwoO2::A,
            1 => D_TwoO2::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_TwoO2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecO2 {
    A,
    B { #[cbor(optional)] x: Own<2>, y: u8 },
}
impl Subj for E_RecO2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecO2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecO2::A => D::Var(0, vec![]),
            E_RecO2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecO2::A,
            1 => E_RecO2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecO2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecO2 {
    A,
    B { #[cbor(optional)] x: Own<2>, y: u8 },
}
impl Subj for G_RecO2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecO2".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecO2::A => D::Var(0, vec![]),
            G_RecO2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecO2::A,
            1 => G_RecO2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecO2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecO2 {
    A,
    #[cbor(missing)] B { #[cbor(optional)] x: Own<2>, y: u8 },
}
impl Subj for M_RecO2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecO2".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecO2::A => D::Var(0, vec![]),
            M_RecO2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecO2::A,
            1 => M_RecO2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecO2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrO2 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: Own<2>, y: u8 },
}
impl Subj for E_ArrO2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrO2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrO2::A => D::Var(0, vec![]),
            E_ArrO2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrO2::A,
            1 => E_ArrO2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrO2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkO2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Own<2> },
}
impl Subj for E_UnkO2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkO2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkO2::A => D::Var(0, vec![]),
            E_UnkO2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkO2::A,
            1 => E_UnkO2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkO2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_UnkO2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Own<2> },
}
impl Subj for U_UnkO2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_UnkO2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_UnkO2::A => D::Var(0, vec![]),
            U_UnkO2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_UnkO2::A,
            1 => U_UnkO2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_UnkO2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_UnkO2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Own<2> },
}
impl Subj for D_UnkO2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_UnkO2".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_UnkO2::A => D::Var(0, vec![]),
            D_UnkO2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_UnkO2::A,
            1 => D_UnkO2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_UnkO2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkO2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Own<2> },
}
impl Subj for G_UnkO2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkO2".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkO2::A => D::Var(0, vec![]),
            G_UnkO2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkO2::A,
            1 => G_UnkO2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkO2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkO2 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional)] x: Own<2> },
}
impl Subj for M_UnkO2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkO2".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkO2::A => D::Var(0, vec![]),
            M_UnkO2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkO2::A,
            1 => M_UnkO2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkO2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_NewL2 {
    A,
    B(Option<Own<2>>),
}
impl Subj for E_NewL2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NewL2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<Own<2>> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NewL2::A => D::Var(0, vec![]),
            E_NewL2::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NewL2::A,
            1 => E_NewL2::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_NewL2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoL2 {
    A,
    B(#[cbor(optional)] Option<Own<2>>, u8),
}
impl Subj for E_TwoL2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoL2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<Own<2>> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoL2::A => D::Var(0, vec![]),
            E_TwoL2::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoL2::A,
            1 => E_TwoL2::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoL2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecL2 {
    A,
    B { #[cbor(optional)] x: Option<Own<2>>, y: u8 },
}
impl Subj for E_RecL2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecL2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Option<Own<2>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecL2::A => D::Var(0, vec![]),
            E_RecL2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecL2::A,
            1 => E_RecL2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecL2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_RecL2 {
    A,
    B { #[cbor(optional)] x: Option<Own<2>>, y: u8 },
}
impl Subj for U_RecL2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_RecL2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Option<Own<2>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_RecL2::A => D::Var(0, vec![]),
            U_RecL2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_RecL2::A,
            1 => U_RecL2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_RecL2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_RecL2 {
    A,
    B { #[cbor(optional)] x: Option<Own<2>>, y: u8 },
}
impl Subj for D_RecL2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_RecL2".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Option<Own<2>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_RecL2::A => D::Var(0, vec![]),
            D_RecL2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_RecL2::A,
            1 => D_RecL2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_RecL2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecL2 {
    A,
    B { #[cbor(optional)] x: Option<Own<2>>, y: u8 },
}
impl Subj for G_RecL2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecL2".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Option<Own<2>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecL2::A => D::Var(0, vec![]),
            G_RecL2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecL2::A,
            1 => G_RecL2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecL2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecL2 {
    A,
    #[cbor(missing)] B { #[cbor(optional)] x: Option<Own<2>>, y: u8 },
}
impl Subj for M_RecL2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecL2".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <Option<Own<2>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecL2::A => D::Var(0, vec![]),
            M_RecL2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecL2::A,
            1 => M_RecL2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecL2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrL2 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: Option<Own<2>>, y: u8 },
}
impl Subj for E_ArrL2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrL2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Option<Own<2>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrL2::A => D::Var(0, vec![]),
            E_ArrL2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrL2::A,
            1 => E_ArrL2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrL2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkL2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Option<Own<2>> },
}
impl Subj for E_UnkL2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkL2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Option<Own<2>> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkL2::A => D::Var(0, vec![]),
            E_UnkL2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkL2::A,
            1 => E_UnkL2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkL2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkL2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Option<Own<2>> },
}
impl Subj for G_UnkL2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkL2".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Option<Own<2>> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkL2::A => D::Var(0, vec![]),
            G_UnkL2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkL2::A,
            1 => G_UnkL2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkL2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkL2 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional)] x: Option<Own<2>> },
}
impl Subj for M_UnkL2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkL2".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <Option<Own<2>> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkL2::A => D::Var(0, vec![]),
            M_UnkL2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkL2::A,
            1 => M_UnkL2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkL2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_NewP3 {
    A,
    B(Own<3>),
}
impl Subj for E_NewP3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NewP3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<3> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NewP3::A => D::Var(0, vec![]),
            E_NewP3::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NewP3::A,
            1 => E_NewP3::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_NewP3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_NewP3 {
    A,
    B(Own<3>),
}
impl Subj for U_NewP3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_NewP3".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<3> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_NewP3::A => D::Var(0, vec![]),
            U_NewP3::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_NewP3::A,
            1 => U_NewP3::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_NewP3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_NewP3 {
    A,
    B(Own<3>),
}
impl Subj for D_NewP3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_NewP3".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<3> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_NewP3::A => D::Var(0, vec![]),
            D_NewP3::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_NewP3::A,
            1 => D_NewP3::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_NewP3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoP3 {
    A,
    B(Own<3>, u8),
}
impl Subj for E_TwoP3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoP3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<3> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoP3::A => D::Var(0, vec![]),
            E_TwoP3::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoP3::A,
            1 => E_TwoP3::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoP3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecP3 {
    A,
    B { x: Own<3>, y: u8 },
}
impl Subj for E_RecP3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecP3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<3> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecP3::A => D::Var(0, vec![]),
            E_RecP3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecP3::A,
            1 => E_RecP3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecP3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecP3 {
    A,
    B { x: Own<3>, y: u8 },
}
impl Subj for G_RecP3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecP3".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<3> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecP3::A => D::Var(0, vec![]),
            G_RecP3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecP3::A,
            1 => G_RecP3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecP3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecP3 {
    A,
    #[cbor(missing)] B { x: Own<3>, y: u8 },
}
impl Subj for M_RecP3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecP3".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <Own<3> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecP3::A => D::Var(0, vec![]),
            M_RecP3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecP3::A,
            1 => M_RecP3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecP3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrP3 {
    A,
    #[cbor(as_array)] B { x: Own<3>, y: u8 },
}
impl Subj for E_ArrP3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrP3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<3> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrP3::A => D::Var(0, vec![]),
            E_ArrP3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrP3::A,
            1 => E_ArrP3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrP3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_ArrP3 {
    A,
    #[cbor(as_array)] B { x: Own<3>, y: u8 },
}
impl Subj for U_ArrP3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_ArrP3".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<3> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_ArrP3::A => D::Var(0, vec![]),
            U_ArrP3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_ArrP3::A,
            1 => U_ArrP3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_ArrP3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_ArrP3 {
    A,
    #[cbor(as_array)] B { x: Own<3>, y: u8 },
}
impl Subj for D_ArrP3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_ArrP3".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<3> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_ArrP3::A => D::Var(0, vec![]),
            D_ArrP3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_ArrP3::A,
            1 => D_ArrP3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_ArrP3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkP3 {
    A,
    #[cbor(allow_unknown)] B { x: Own<3> },
}
impl Subj for E_UnkP3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkP3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<3> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkP3::A => D::Var(0, vec![]),
            E_UnkP3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkP3::A,
            1 => E_UnkP3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkP3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkP3 {
    A,
    #[cbor(allow_unknown)] B { x: Own<3> },
}
impl Subj for G_UnkP3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkP3".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<3> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkP3::A => D::Var(0, vec![]),
            G_UnkP3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkP3::A,
            1 => G_UnkP3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkP3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkP3 {
    A,
    #[cbor(allow_unknown, missing)] B { x: Own<3> },
}
impl Subj for M_UnkP3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkP3".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <Own<3> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkP3::A => D::Var(0, vec![]),
            M_UnkP3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkP3::A,
            1 => M_UnkP3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkP3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoO3 {
    A,
    B(#[cbor(optional)] Own<3>, u8),
}
impl Subj for E_TwoO3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoO3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<3> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoO3::A => D::Var(0, vec![]),
            E_TwoO3::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoO3::A,
            1 => E_TwoO3::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoO3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_TwoO3 {
    A,
    B(#[cbor(optional)] Own<3>, u8),
}
impl Subj for U_TwoO3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_TwoO3".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<3> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_TwoO3::A => D::Var(0, vec![]),
            U_TwoO3::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_TwoO3::A,
            1 => U_TwoO3::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_TwoO3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_TwoO3 {
    A,
    B(#[cbor(optional)] Own<3>, u8),
}
impl Subj for D_TwoO3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_TwoO3".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<3> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_TwoO3::A => D::Var(0, vec![]),
            D_TwoO3::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_TwoO3::A,
            1 => D_TwoO3::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_TwoO3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecO3 {
    A,
    B { #[cbor(optional)] x: Own<3>, y: u8 },
}
impl Subj for E_RecO3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecO3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<3> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecO3::A => D::Var(0, vec![]),
            E_RecO3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecO3::A,
            1 => E_RecO3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecO3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecO3 {
    A,
    B { #[cbor(optional)] x: Own<3>, y: u8 },
}
impl Subj for G_RecO3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecO3".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<3> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecO3::A => D::Var(0, vec![]),
            G_RecO3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecO3::A,
            1 => G_RecO3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecO3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecO3 {
    A,
    #[cbor(missing)] B { #[cbor(optional)] x: Own<3>, y: u8 },
}
impl Subj for M_RecO3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecO3".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <Own<3> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecO3::A => D::Var(0, vec![]),
            M_RecO3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecO3::A,
            1 => M_RecO3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecO3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrO3 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: Own<3>, y: u8 },
}
impl Subj for E_ArrO3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrO3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<3> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrO3::A => D::Var(0, vec![]),
            E_ArrO3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrO3::A,
            1 => E_ArrO3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrO3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkO3 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Own<3> },
}
impl Subj for E_UnkO3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkO3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<3> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkO3::A => D::Var(0, vec![]),
            E_UnkO3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkO3::A,
            1 => E_UnkO3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkO3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_UnkO3 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Own<3> },
}
impl Subj for U_UnkO3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_UnkO3".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<3> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_UnkO3::A => D::Var(0, vec![]),
            U_UnkO3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_UnkO3::A,
            1 => U_UnkO3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_UnkO3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_UnkO3 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Own<3> },
}
impl Subj for D_UnkO3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_UnkO3".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<3> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_UnkO3::A => D::Var(0, vec![]),
            D_UnkO3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_UnkO3::A,
            1 => D_UnkO3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_UnkO3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkO3 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Own<3> },
}
impl Subj for G_UnkO3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkO3".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<3> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkO3::A => D::Var(0, vec![]),
            G_UnkO3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkO3::A,
            1 => G_UnkO3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkO3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkO3 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional)] x: Own<3> },
}
impl Subj for M_UnkO3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkO3".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <Own<3> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkO3::A => D::Var(0, vec![]),
            M_UnkO3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkO3::A,
            1 => M_UnkO3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkO3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_NewL3 {
    A,
    B(Option<Own<3>>),
}
impl Subj for E_NewL3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NewL3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<Own<3>> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NewL3::A => D::Var(0, vec![]),
            E_NewL3::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NewL3::A,
            1 => E_NewL3::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_NewL3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoL3 {
    A,
    B(#[cbor(optional)] Option<Own<3>>, u8),
}
impl Subj for E_TwoL3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoL3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<Own<3>> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoL3::A => D::Var(0, vec![]),
            E_TwoL3::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoL3::A,
            1 => E_TwoL3::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoL3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecL3 {
    A,
    B { #[cbor(optional)] x: Option<Own<3>>, y: u8 },
}
impl Subj for E_RecL3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecL3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Option<Own<3>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecL3::A => D::Var(0, vec![]),
            E_RecL3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecL3::A,
            1 => E_RecL3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecL3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_RecL3 {
    A,
    B { #[cbor(optional)] x: Option<Own<3>>, y: u8 },
}
impl Subj for U_RecL3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_RecL3".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Option<Own<3>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_RecL3::A => D::Var(0, vec![]),
            U_RecL3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_RecL3::A,
            1 => U_RecL3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_RecL3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_RecL3 {
    A,
    B { #[cbor(optional)] x: Option<Own<3>>, y: u8 },
}
impl Subj for D_RecL3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_RecL3".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Option<Own<3>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_RecL3::A => D::Var(0, vec![]),
            D_RecL3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_RecL3::A,
            1 => D_RecL3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_RecL3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecL3 {
    A,
    B { #[cbor(optional)] x: Option<Own<3>>, y: u8 },
}
impl Subj for G_RecL3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecL3".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Option<Own<3>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecL3::A => D::Var(0, vec![]),
            G_RecL3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecL3::A,
            1 => G_RecL3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecL3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecL3 {
    A,
    #[cbor(missing)] B { #[cbor(optional)] x: Option<Own<3>>, y: u8 },
}
impl Subj for M_RecL3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecL3".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <Option<Own<3>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecL3::A => D::Var(0, vec![]),
            M_RecL3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecL3::A,
            1 => M_RecL3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecL3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrL3 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: Option<Own<3>>, y: u8 },
}
impl Subj for E_ArrL3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrL3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Option<Own<3>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrL3::A => D::Var(0, vec![]),
            E_ArrL3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrL3::A,
            1 => E_ArrL3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrL3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkL3 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Option<Own<3>> },
}
impl Subj for E_UnkL3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkL3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Option<Own<3>> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkL3::A => D::Var(0, vec![]),
            E_UnkL3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkL3::A,
            1 => E_UnkL3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkL3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkL3 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Option<Own<3>> },
}
impl Subj for G_UnkL3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkL3".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Option<Own<3>> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkL3::A => D::Var(0, vec![]),
            G_UnkL3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkL3::A,
            1 => G_UnkL3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkL3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkL3 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional)] x: Option<Own<3>> },
}
impl Subj for M_UnkL3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkL3".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <Option<Own<3>> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkL3::A => D::Var(0, vec![]),
            M_UnkL3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkL3::A,
            1 => M_UnkL3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkL3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_NewP4 {
    A,
    B(Own<4>),
}
impl Subj for E_NewP4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NewP4".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<4> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NewP4::A => D::Var(0, vec![]),
            E_NewP4::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NewP4::A,
            1 => E_NewP4::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_NewP4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_NewP4 {
    A,
    B(Own<4>),
}
impl Subj for U_NewP4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_NewP4".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<4> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_NewP4::A => D::Var(0, vec![]),
            U_NewP4::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_NewP4::A,
            1 => U_NewP4::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_NewP4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_NewP4 {
    A,
    B(Own<4>),
}
impl Subj for D_NewP4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_NewP4".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<4> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_NewP4::A => D::Var(0, vec![]),
            D_NewP4::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_NewP4::A,
            1 => D_NewP4::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_NewP4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoP4 {
    A,
    B(Own<4>, u8),
}
impl Subj for E_TwoP4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoP4".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<4> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoP4::A => D::Var(0, vec![]),
            E_TwoP4::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoP4::A,
            1 => E_TwoP4::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoP4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecP4 {
    A,
    B { x: Own<4>, y: u8 },
}
impl Subj for E_RecP4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecP4".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<4> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecP4::A => D::Var(0, vec![]),
            E_RecP4::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecP4::A,
            1 => E_RecP4::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecP4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecP4 {
    A,
    B { x: Own<4>, y: u8 },
}
impl Subj for G_RecP4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecP4".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<4> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecP4::A => D::Var(0, vec![]),
            G_RecP4::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecP4::A,
            1 => G_RecP4::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecP4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecP4 {
    A,
    #[cbor(missing)] B { x: Own<4>, y: u8 },
}
impl Subj for M_RecP4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecP4".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <Own<4> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecP4::A => D::Var(0, vec![]),
            M_RecP4::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecP4::A,
            1 => M_RecP4::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecP4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrP4 {
    A,
    #[cbor(as_array)] B { x: Own<4>, y: u8 },
}
impl Subj for E_ArrP4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrP4".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<4> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrP4::A => D::Var(0, vec![]),
            E_ArrP4::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrP4::A,
            1 => E_ArrP4::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrP4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_ArrP4 {
    A,
    #[cbor(as_array)] B { x: Own<4>, y: u8 },
}
impl Subj for U_ArrP4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_ArrP4".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<4> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_ArrP4::A => D::Var(0, vec![]),
            U_ArrP4::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_ArrP4::A,
            1 => U_ArrP4::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_ArrP4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_ArrP4 {
    A,
    #[cbor(as_array)] B { x: Own<4>, y: u8 },
}
impl Subj for D_ArrP4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_ArrP4".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<4> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_ArrP4::A => D::Var(0, vec![]),
            D_ArrP4::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_ArrP4::A,
            1 => D_ArrP4::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_ArrP4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkP4 {
    A,
    #[cbor(allow_unknown)] B { x: Own<4> },
}
impl Subj for E_UnkP4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkP4".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<4> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkP4::A => D::Var(0, vec![]),
            E_UnkP4::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkP4::A,
            1 => E_UnkP4::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkP4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkP4 {
    A,
    #[cbor(allow_unknown)] B { x: Own<4> },
}
impl Subj for G_UnkP4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkP4".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<4> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkP4::A => D::Var(0, vec![]),
            G_UnkP4::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkP4::A,
            1 => G_UnkP4::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkP4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkP4 {
    A,
    #[cbor(allow_unknown, missing)] B { x: Own<4> },
}
impl Subj for M_UnkP4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkP4".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <Own<4> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkP4::A => D::Var(0, vec![]),
            M_UnkP4::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkP4::A,
            1 => M_UnkP4::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkP4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoO4 {
    A,
    B(#[cbor(optional)] Own<4>, u8),
}
impl Subj for E_TwoO4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoO4".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<4> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoO4::A => D::Var(0, vec![]),
            E_TwoO4::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoO4::A,
            1 => E_TwoO4::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoO4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_TwoO4 {
    A,
    B(#[cbor(optional)] Own<4>, u8),
}
impl Subj for U_TwoO4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_TwoO4".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<4> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_TwoO4::A => D::Var(0, vec![]),
            U_TwoO4::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_TwoO4::A,
            1 => U_TwoO4::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_TwoO4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_TwoO4 {
    A,
    B(#[cbor(optional)] Own<4>, u8),
}
impl Subj for D_TwoO4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_TwoO4".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<4> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_TwoO4::A => D::Var(0, vec![]),
            D_TwoO4::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_TwoO4::A,
            1 => D_TwoO4::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_TwoO4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecO4 {
    A,
    B { #[cbor(optional)] x: Own<4>, y: u8 },
}
impl Subj for E_RecO4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecO4".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<4> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecO4::A => D::Var(0, vec![]),
            E_RecO4::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecO4::A,
            1 => E_RecO4::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecO4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecO4 {
    A,
    B { #[cbor(optional)] x: Own<4>, y: u8 },
}
impl Subj for G_RecO4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecO4".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<4> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecO4::A => D::Var(0, vec![]),
            G_RecO4::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecO4::A,
            1 => G_RecO4::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecO4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecO4 {
    A,
    #[cbor(missing)] B { #[cbor(optional)] x: Own<4>, y: u8 },
}
impl Subj for M_RecO4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecO4".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <Own<4> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecO4::A => D::Var(0, vec![]),
            M_RecO4::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecO4::A,
            1 => M_RecO4::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecO4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrO4 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: Own<4>, y: u8 },
}
impl Subj for E_ArrO4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrO4".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<4> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrO4::A => D::Var(0, vec![]),
            E_ArrO4::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrO4::A,
            1 => E_ArrO4::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrO4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkO4 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Own<4> },
}
impl Subj for E_UnkO4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkO4".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<4> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkO4::A => D::Var(0, vec![]),
            E_UnkO4::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkO4::A,
            1 => E_UnkO4::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkO4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_UnkO4 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Own<4> },
}
impl Subj for U_UnkO4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_UnkO4".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<4> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_UnkO4::A => D::Var(0, vec![]),
            U_UnkO4::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_UnkO4::A,
            1 => U_UnkO4::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_UnkO4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_UnkO4 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Own<4> },
}
impl Subj for D_UnkO4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_UnkO4".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<4> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_UnkO4::A => D::Var(0, vec![]),
            D_UnkO4::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_UnkO4::A,
            1 => D_UnkO4::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_UnkO4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkO4 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Own<4> },
}
impl Subj for G_UnkO4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkO4".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<4> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkO4::A => D::Var(0, vec![]),
            G_UnkO4::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkO4::A,
            1 => G_UnkO4::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkO4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkO4 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional)] x: Own<4> },
}
impl Subj for M_UnkO4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkO4".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <Own<4> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkO4::A => D::Var(0, vec![]),
            M_UnkO4::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkO4::A,
            1 => M_UnkO4::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkO4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_NewL4 {
    A,
    B(Option<Own<4>>),
}
impl Subj for E_NewL4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NewL4".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<Own<4>> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NewL4::A => D::Var(0, vec![]),
            E_NewL4::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NewL4::A,
            1 => E_NewL4::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_NewL4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoL4 {
    A,
    B(#[cbor(optional)] Option<Own<4>>, u8),
}
impl Subj for E_TwoL4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoL4".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<Own<4>> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoL4::A => D::Var(0, vec![]),
            E_TwoL4::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoL4::A,
            1 => E_TwoL4::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoL4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecL4 {
    A,
    B { #[cbor(optional)] x: Option<Own<4>>, y: u8 },
}
impl Subj for E_RecL4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecL4".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Option<Own<4>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecL4::A => D::Var(0, vec![]),
            E_RecL4::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecL4::A,
            1 => E_RecL4::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecL4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_RecL4 {
    A,
    B { #[cbor(optional)] x: Option<Own<4>>, y: u8 },
}
impl Subj for U_RecL4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_RecL4".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Option<Own<4>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_RecL4::A => D::Var(0, vec![]),
            U_RecL4::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_RecL4::A,
            1 => U_RecL4::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_RecL4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_RecL4 {
    A,
    B { #[cbor(optional)] x: Option<Own<4>>, y: u8 },
}
impl Subj for D_RecL4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_RecL4".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Option<Own<4>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_RecL4::A => D::Var(0, vec![]),
            D_RecL4::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_RecL4::A,
            1 => D_RecL4::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_RecL4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecL4 {
    A,
    B { #[cbor(optional)] x: Option<Own<4>>, y: u8 },
}
impl Subj for G_RecL4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecL4".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Option<Own<4>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecL4::A => D::Var(0, vec![]),
            G_RecL4::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecL4::A,
            1 => G_RecL4::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecL4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecL4 {
    A,
    #[cbor(missing)] B { #[cbor(optional)] x: Option<Own<4>>, y: u8 },
}
impl Subj for M_RecL4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecL4".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <Option<Own<4>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecL4::A => D::Var(0, vec![]),
            M_RecL4::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecL4::A,
            1 => M_RecL4::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecL4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrL4 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: Option<Own<4>>, y: u8 },
}
impl Subj for E_ArrL4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrL4".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Option<Own<4>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrL4::A => D::Var(0, vec![]),
            E_ArrL4::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrL4::A,
            1 => E_ArrL4::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrL4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkL4 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Option<Own<4>> },
}
impl Subj for E_UnkL4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkL4".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Option<Own<4>> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkL4::A => D::Var(0, vec![]),
            E_UnkL4::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkL4::A,
            1 => E_UnkL4::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkL4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkL4 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Option<Own<4>> },
}
impl Subj for G_UnkL4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkL4".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Option<Own<4>> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkL4::A => D::Var(0, vec![]),
            G_UnkL4::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkL4::A,
            1 => G_UnkL4::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkL4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkL4 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional)] x: Option<Own<4>> },
}
impl Subj for M_UnkL4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkL4".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <Option<Own<4>> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkL4::A => D::Var(0, vec![]),
            M_UnkL4::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkL4::A,
            1 => M_UnkL4::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkL4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecI0 {
    A,
    B { #[cbor(optional, skip_serializing_if = "is_seven")] x: Own<0>, y: u8 },
}
impl Subj for E_RecI0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecI0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<0> as Subj>::ty()).opt().skip_when(seven), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecI0::A => D::Var(0, vec![]),
            E_RecI0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecI0::A,
            1 => E_RecI0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecI0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecI0 {
    A,
    B { #[cbor(optional, skip_serializing_if = "is_seven")] x: Own<0>, y: u8 },
}
impl Subj for G_RecI0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecI0".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<0> as Subj>::ty()).opt().skip_when(seven), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecI0::A => D::Var(0, vec![]),
            G_RecI0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecI0::A,
            1 => G_RecI0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecI0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecI0 {
    A,
    #[cbor(missing)] B { #[cbor(optional, skip_serializing_if = "is_seven")] x: Own<0>, y: u8 },
}
impl Subj for M_RecI0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecI0".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <Own<0> as Subj>::ty()).opt().skip_when(seven), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecI0::A => D::Var(0, vec![]),
            M_RecI0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecI0::A,
            1 => M_RecI0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecI0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkI0 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional, skip_serializing_if = "is_seven")] x: Own<0> },
}
impl Subj for E_UnkI0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkI0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<0> as Subj>::ty()).opt().skip_when(seven)] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkI0::A => D::Var(0, vec![]),
            E_UnkI0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkI0::A,
            1 => E_UnkI0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkI0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkI0 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional, skip_serializing_if = "is_seven")] x: Own<0> },
}
impl Subj for G_UnkI0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkI0".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<0> as Subj>::ty()).opt().skip_when(seven)] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkI0::A => D::Var(0, vec![]),
            G_UnkI0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkI0::A,
            1 => G_UnkI0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkI0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkI0 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional, skip_serializing_if = "is_seven")] x: Own<0> },
}
impl Subj for M_UnkI0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkI0".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <Own<0> as Subj>::ty()).opt().skip_when(seven)] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkI0::A => D::Var(0, vec![]),
            M_UnkI0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkI0::A,
            1 => M_UnkI0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkI0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoS0 {
    A,
    B(#[cbor(skip)] Own<0>, u8),
}
impl Subj for E_TwoS0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoS0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<0> as Subj>::ty()).skipped(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoS0::A => D::Var(0, vec![]),
            E_TwoS0::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoS0::A,
            1 => E_TwoS0::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoS0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_TwoS0 {
    A,
    B(#[cbor(skip)] Own<0>, u8),
}
impl Subj for U_TwoS0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_TwoS0".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<0> as Subj>::ty()).skipped(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_TwoS0::A => D::Var(0, vec![]),
            U_TwoS0::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_TwoS0::A,
            1 => U_TwoS0::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_TwoS0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_TwoS0 {
    A,
    B(#[cbor(skip)] Own<0>, u8),
}
impl Subj for D_TwoS0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_TwoS0".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<0> as Subj>::ty()).skipped(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_TwoS0::A => D::Var(0, vec![]),
            D_TwoS0::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_TwoS0::A,
            1 => D_TwoS0::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_TwoS0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecS0 {
    A,
    B { #[cbor(skip)] x: Own<0>, y: u8 },
}
impl Subj for E_RecS0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecS0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<0> as Subj>::ty()).skipped(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecS0::A => D::Var(0, vec![]),
            E_RecS0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecS0::A,
            1 => E_RecS0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecS0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecS0 {
    A,
    B { #[cbor(skip)] x: Own<0>, y: u8 },
}
impl Subj for G_RecS0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecS0".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<0> as Subj>::ty()).skipped(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecS0::A => D::Var(0, vec![]),
            G_RecS0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecS0::A,
            1 => G_RecS0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecS0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecS0 {
    A,
    #[cbor(missing)] B { #[cbor(skip)] x: Own<0>, y: u8 },
}
impl Subj for M_RecS0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecS0".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <Own<0> as Subj>::ty()).skipped(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecS0::A => D::Var(0, vec![]),
            M_RecS0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecS0::A,
            1 => M_RecS0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecS0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrS0 {
    A,
    #[cbor(as_array)] B { #[cbor(skip)] x: Own<0>, y: u8 },
}
impl Subj for E_ArrS0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrS0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<0> as Subj>::ty()).skipped(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrS0::A => D::Var(0, vec![]),
            E_ArrS0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrS0::A,
            1 => E_ArrS0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrS0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkS0 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(skip)] x: Own<0> },
}
impl Subj for E_UnkS0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkS0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<0> as Subj>::ty()).skipped()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkS0::A => D::Var(0, vec![]),
            E_UnkS0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkS0::A,
            1 => E_UnkS0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkS0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_UnkS0 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(skip)] x: Own<0> },
}
impl Subj for U_UnkS0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_UnkS0".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<0> as Subj>::ty()).skipped()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_UnkS0::A => D::Var(0, vec![]),
            U_UnkS0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_UnkS0::A,
            1 => U_UnkS0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_UnkS0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_UnkS0 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(skip)] x: Own<0> },
}
impl Subj for D_UnkS0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_UnkS0".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<0> as Subj>::ty()).skipped()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_UnkS0::A => D::Var(0, vec![]),
            D_UnkS0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_UnkS0::A,
            1 => D_UnkS0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_UnkS0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkS0 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(skip)] x: Own<0> },
}
impl Subj for G_UnkS0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkS0".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<0> as Subj>::ty()).skipped()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkS0::A => D::Var(0, vec![]),
            G_UnkS0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkS0::A,
            1 => G_UnkS0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkS0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkS0 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(skip)] x: Own<0> },
}
impl Subj for M_UnkS0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkS0".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <Own<0> as Subj>::ty()).skipped()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkS0::A => D::Var(0, vec![]),
            M_UnkS0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkS0::A,
            1 => M_UnkS0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkS0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_NewW0 {
    A,
    B(#[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] u8),
}
impl Subj for E_NewW0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NewW0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<0>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NewW0::A => D::Var(0, vec![]),
            E_NewW0::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NewW0::A,
            1 => E_NewW0::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_NewW0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoW0 {
    A,
    B(#[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] u8, u8),
}
impl Subj for E_TwoW0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoW0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<0>()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoW0::A => D::Var(0, vec![]),
            E_TwoW0::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoW0::A,
            1 => E_TwoW0::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoW0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecW0 {
    A,
    B { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] x: u8, y: u8 },
}
impl Subj for E_RecW0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecW0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecW0::A => D::Var(0, vec![]),
            E_RecW0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecW0::A,
            1 => E_RecW0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecW0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_RecW0 {
    A,
    B { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] x: u8, y: u8 },
}
impl Subj for U_RecW0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_RecW0".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_RecW0::A => D::Var(0, vec![]),
            U_RecW0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_RecW0::A,
            1 => U_RecW0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_RecW0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_RecW0 {
    A,
    B { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] x: u8, y: u8 },
}
impl Subj for D_RecW0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_RecW0".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_RecW0::A => D::Var(0, vec![]),
            D_RecW0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_RecW0::A,
            1 => D_RecW0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_RecW0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecW0 {
    A,
    B { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] x: u8, y: u8 },
}
impl Subj for G_RecW0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecW0".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecW0::A => D::Var(0, vec![]),
            G_RecW0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecW0::A,
            1 => G_RecW0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecW0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecW0 {
    A,
    #[cbor(missing)] B { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] x: u8, y: u8 },
}
impl Subj for M_RecW0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecW0".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecW0::A => D::Var(0, vec![]),
            M_RecW0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecW0::A,
            1 => M_RecW0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecW0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrW0 {
    A,
    #[cbor(as_array)] B { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] x: u8, y: u8 },
}
impl Subj for E_ArrW0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrW0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<0>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrW0::A => D::Var(0, vec![]),
            E_ArrW0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrW0::A,
            1 => E_ArrW0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrW0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkW0 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] x: u8 },
}
impl Subj for E_UnkW0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkW0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<0>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkW0::A => D::Var(0, vec![]),
            E_UnkW0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkW0::A,
            1 => E_UnkW0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkW0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkW0 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] x: u8 },
}
impl Subj for G_UnkW0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkW0".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<0>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkW0::A => D::Var(0, vec![]),
            G_UnkW0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkW0::A,
            1 => G_UnkW0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkW0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkW0 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] x: u8 },
}
impl Subj for M_UnkW0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkW0".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<0>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkW0::A => D::Var(0, vec![]),
            M_UnkW0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkW0::A,
            1 => M_UnkW0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkW0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_NewX0 {
    A,
    B(#[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] u8),
}
impl Subj for E_NewX0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NewX0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<0>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NewX0::A => D::Var(0, vec![]),
            E_NewX0::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NewX0::A,
            1 => E_NewX0::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_NewX0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_NewX0 {
    A,
    B(#[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] u8),
}
impl Subj for U_NewX0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_NewX0".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<0>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_NewX0::A => D::Var(0, vec![]),
            U_NewX0::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_NewX0::A,
            1 => U_NewX0::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_NewX0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_NewX0 {
    A,
    B(#[cbor(serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] u8),
}
impl Subj for D_NewX0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_NewX0".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<0>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_NewX0::A => D::Var(0, vec![]),
            D_NewX0::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_NewX0::A,
            1 => D_NewX0::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_NewX0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoX0 {
    A,
    B(#[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] u8, u8),
}
impl Subj for E_TwoX0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoX0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoX0::A => D::Var(0, vec![]),
            E_TwoX0::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoX0::A,
            1 => E_TwoX0::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoX0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecX0 {
    A,
    B { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] x: u8, y: u8 },
}
impl Subj for E_RecX0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecX0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecX0::A => D::Var(0, vec![]),
            E_RecX0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecX0::A,
            1 => E_RecX0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecX0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecX0 {
    A,
    B { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] x: u8, y: u8 },
}
impl Subj for G_RecX0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecX0".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecX0::A => D::Var(0, vec![]),
            G_RecX0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecX0::A,
            1 => G_RecX0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecX0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecX0 {
    A,
    #[cbor(missing)] B { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] x: u8, y: u8 },
}
impl Subj for M_RecX0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecX0".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecX0::A => D::Var(0, vec![]),
            M_RecX0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecX0::A,
            1 => M_RecX0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecX0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrX0 {
    A,
    #[cbor(as_array)] B { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] x: u8, y: u8 },
}
impl Subj for E_ArrX0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrX0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrX0::A => D::Var(0, vec![]),
            E_ArrX0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrX0::A,
            1 => E_ArrX0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrX0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_ArrX0 {
    A,
    #[cbor(as_array)] B { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] x: u8, y: u8 },
}
impl Subj for U_ArrX0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_ArrX0".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_ArrX0::A => D::Var(0, vec![]),
            U_ArrX0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_ArrX0::A,
            1 => U_ArrX0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_ArrX0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_ArrX0 {
    A,
    #[cbor(as_array)] B { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] x: u8, y: u8 },
}
impl Subj for D_ArrX0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_ArrX0".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<0>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_ArrX0::A => D::Var(0, vec![]),
            D_ArrX0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_ArrX0::A,
            1 => D_ArrX0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_ArrX0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkX0 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] x: u8 },
}
impl Subj for E_UnkX0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkX0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<0>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkX0::A => D::Var(0, vec![]),
            E_UnkX0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkX0::A,
            1 => E_UnkX0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkX0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkX0 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] x: u8 },
}
impl Subj for G_UnkX0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkX0".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<0>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkX0::A => D::Var(0, vec![]),
            G_UnkX0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkX0::A,
            1 => G_UnkX0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkX0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkX0 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional, serialize_with = "ser_own::<0>", deserialize_with = "de_own::<0>")] x: u8 },
}
impl Subj for M_UnkX0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkX0".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<0>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkX0::A => D::Var(0, vec![]),
            M_UnkX0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkX0::A,
            1 => M_UnkX0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkX0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoT0 {
    A,
    B(#[cbor(optional)] (Own<0>, u8), u8),
}
impl Subj for E_TwoT0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoT0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <(Own<0>, u8) as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoT0::A => D::Var(0, vec![]),
            E_TwoT0::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoT0::A,
            1 => E_TwoT0::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoT0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_TwoT0 {
    A,
    B(#[cbor(optional)] (Own<0>, u8), u8),
}
impl Subj for U_TwoT0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_TwoT0".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <(Own<0>, u8) as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_TwoT0::A => D::Var(0, vec![]),
            U_TwoT0::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_TwoT0::A,
            1 => U_TwoT0::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_TwoT0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_TwoT0 {
    A,
    B(#[cbor(optional)] (Own<0>, u8), u8),
}
impl Subj for D_TwoT0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_TwoT0".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <(Own<0>, u8) as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_TwoT0::A => D::Var(0, vec![]),
            D_TwoT0::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_TwoT0::A,
            1 => D_TwoT0::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_TwoT0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecT0 {
    A,
    B { #[cbor(optional)] x: (Own<0>, u8), y: u8 },
}
impl Subj for E_RecT0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecT0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecT0::A => D::Var(0, vec![]),
            E_RecT0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecT0::A,
            1 => E_RecT0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecT0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecT0 {
    A,
    B { #[cbor(optional)] x: (Own<0>, u8), y: u8 },
}
impl Subj for G_RecT0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecT0".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecT0::A => D::Var(0, vec![]),
            G_RecT0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecT0::A,
            1 => G_RecT0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecT0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecT0 {
    A,
    #[cbor(missing)] B { #[cbor(optional)] x: (Own<0>, u8), y: u8 },
}
impl Subj for M_RecT0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecT0".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecT0::A => D::Var(0, vec![]),
            M_RecT0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecT0::A,
            1 => M_RecT0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecT0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrT0 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: (Own<0>, u8), y: u8 },
}
impl Subj for E_ArrT0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrT0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<0>, u8) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrT0::A => D::Var(0, vec![]),
            E_ArrT0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrT0::A,
            1 => E_ArrT0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrT0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkT0 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: (Own<0>, u8) },
}
impl Subj for E_UnkT0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkT0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <(Own<0>, u8) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkT0::A => D::Var(0, vec![]),
            E_UnkT0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkT0::A,
            1 => E_UnkT0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkT0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_UnkT0 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: (Own<0>, u8) },
}
impl Subj for U_UnkT0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_UnkT0".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <(Own<0>, u8) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_UnkT0::A => D::Var(0, vec![]),
            U_UnkT0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_UnkT0::A,
            1 => U_UnkT0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_UnkT0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_UnkT0 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: (Own<0>, u8) },
}
impl Subj for D_UnkT0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_UnkT0".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <(Own<0>, u8) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_UnkT0::A => D::Var(0, vec![]),
            D_UnkT0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_UnkT0::A,
            1 => D_UnkT0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_UnkT0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkT0 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: (Own<0>, u8) },
}
impl Subj for G_UnkT0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkT0".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <(Own<0>, u8) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkT0::A => D::Var(0, vec![]),
            G_UnkT0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkT0::A,
            1 => G_UnkT0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkT0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkT0 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional)] x: (Own<0>, u8) },
}
impl Subj for M_UnkT0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkT0".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <(Own<0>, u8) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkT0::A => D::Var(0, vec![]),
            M_UnkT0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkT0::A,
            1 => M_UnkT0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkT0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoU0 {
    A,
    B(#[cbor(optional)] (Own<0>, Own<1>), u8),
}
impl Subj for E_TwoU0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoU0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <(Own<0>, Own<1>) as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoU0::A => D::Var(0, vec![]),
            E_TwoU0::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoU0::A,
            1 => E_TwoU0::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoU0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecU0 {
    A,
    B { #[cbor(optional)] x: (Own<0>, Own<1>), y: u8 },
}
impl Subj for E_RecU0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecU0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<0>, Own<1>) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecU0::A => D::Var(0, vec![]),
            E_RecU0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecU0::A,
            1 => E_RecU0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecU0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_RecU0 {
    A,
    B { #[cbor(optional)] x: (Own<0>, Own<1>), y: u8 },
}
impl Subj for U_RecU0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_RecU0".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<0>, Own<1>) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_RecU0::A => D::Var(0, vec![]),
            U_RecU0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_RecU0::A,
            1 => U_RecU0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_RecU0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_RecU0 {
    A,
    B { #[cbor(optional)] x: (Own<0>, Own<1>), y: u8 },
}
impl Subj for D_RecU0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_RecU0".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<0>, Own<1>) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_RecU0::A => D::Var(0, vec![]),
            D_RecU0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_RecU0::A,
            1 => D_RecU0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_RecU0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecU0 {
    A,
    B { #[cbor(optional)] x: (Own<0>, Own<1>), y: u8 },
}
impl Subj for G_RecU0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecU0".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<0>, Own<1>) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecU0::A => D::Var(0, vec![]),
            G_RecU0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecU0::A,
            1 => G_RecU0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecU0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecU0 {
    A,
    #[cbor(missing)] B { #[cbor(optional)] x: (Own<0>, Own<1>), y: u8 },
}
impl Subj for M_RecU0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecU0".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <(Own<0>, Own<1>) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecU0::A => D::Var(0, vec![]),
            M_RecU0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecU0::A,
            1 => M_RecU0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecU0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrU0 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: (Own<0>, Own<1>), y: u8 },
}
impl Subj for E_ArrU0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrU0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<0>, Own<1>) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrU0::A => D::Var(0, vec![]),
            E_ArrU0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrU0::A,
            1 => E_ArrU0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrU0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkU0 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: (Own<0>, Own<1>) },
}
impl Subj for E_UnkU0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkU0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <(Own<0>, Own<1>) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkU0::A => D::Var(0, vec![]),
            E_UnkU0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkU0::A,
            1 => E_UnkU0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkU0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkU0 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: (Own<0>, Own<1>) },
}
impl Subj for G_UnkU0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkU0".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <(Own<0>, Own<1>) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkU0::A => D::Var(0, vec![]),
            G_UnkU0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkU0::A,
            1 => G_UnkU0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkU0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkU0 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional)] x: (Own<0>, Own<1>) },
}
impl Subj for M_UnkU0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkU0".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <(Own<0>, Own<1>) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkU0::A => D::Var(0, vec![]),
            M_UnkU0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkU0::A,
            1 => M_UnkU0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkU0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoV0 {
    A,
    B(#[cbor(optional)] Vec<Own<0>>, u8),
}
impl Subj for E_TwoV0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoV0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<Own<0>> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoV0::A => D::Var(0, vec![]),
            E_TwoV0::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoV0::A,
            1 => E_TwoV0::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoV0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecV0 {
    A,
    B { #[cbor(optional)] x: Vec<Own<0>>, y: u8 },
}
impl Subj for E_RecV0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecV0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Vec<Own<0>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecV0::A => D::Var(0, vec![]),
            E_RecV0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecV0::A,
            1 => E_RecV0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecV0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecV0 {
    A,
    B { #[cbor(optional)] x: Vec<Own<0>>, y: u8 },
}
impl Subj for G_RecV0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecV0".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Vec<Own<0>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecV0::A => D::Var(0, vec![]),
            G_RecV0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecV0::A,
            1 => G_RecV0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecV0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecV0 {
    A,
    #[cbor(missing)] B { #[cbor(optional)] x: Vec<Own<0>>, y: u8 },
}
impl Subj for M_RecV0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecV0".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <Vec<Own<0>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecV0::A => D::Var(0, vec![]),
            M_RecV0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecV0::A,
            1 => M_RecV0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecV0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrV0 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: Vec<Own<0>>, y: u8 },
}
impl Subj for E_ArrV0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrV0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Vec<Own<0>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrV0::A => D::Var(0, vec![]),
            E_ArrV0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrV0::A,
            1 => E_ArrV0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrV0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_ArrV0 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: Vec<Own<0>>, y: u8 },
}
impl Subj for U_ArrV0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_ArrV0".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Vec<Own<0>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_ArrV0::A => D::Var(0, vec![]),
            U_ArrV0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_ArrV0::A,
            1 => U_ArrV0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_ArrV0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_ArrV0 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: Vec<Own<0>>, y: u8 },
}
impl Subj for D_ArrV0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_ArrV0".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Vec<Own<0>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_ArrV0::A => D::Var(0, vec![]),
            D_ArrV0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_ArrV0::A,
            1 => D_ArrV0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_ArrV0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkV0 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Vec<Own<0>> },
}
impl Subj for E_UnkV0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkV0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Vec<Own<0>> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkV0::A => D::Var(0, vec![]),
            E_UnkV0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkV0::A,
            1 => E_UnkV0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkV0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkV0 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Vec<Own<0>> },
}
impl Subj for G_UnkV0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkV0".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Vec<Own<0>> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkV0::A => D::Var(0, vec![]),
            G_UnkV0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkV0::A,
            1 => G_UnkV0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkV0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkV0 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional)] x: Vec<Own<0>> },
}
impl Subj for M_UnkV0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkV0".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <Vec<Own<0>> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkV0::A => D::Var(0, vec![]),
            M_UnkV0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkV0::A,
            1 => M_UnkV0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkV0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoA0 {
    A,
    B(#[cbor(optional)] [Own<0>; 1], u8),
}
impl Subj for E_TwoA0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoA0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <[Own<0>; 1] as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoA0::A => D::Var(0, vec![]),
            E_TwoA0::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoA0::A,
            1 => E_TwoA0::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoA0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_TwoA0 {
    A,
    B(#[cbor(optional)] [Own<0>; 1], u8),
}
impl Subj for U_TwoA0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_TwoA0".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <[Own<0>; 1] as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_TwoA0::A => D::Var(0, vec![]),
            U_TwoA0::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_TwoA0::A,
            1 => U_TwoA0::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_TwoA0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_TwoA0 {
    A,
    B(#[cbor(optional)] [Own<0>; 1], u8),
}
impl Subj for D_TwoA0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_TwoA0".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <[Own<0>; 1] as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_TwoA0::A => D::Var(0, vec![]),
            D_TwoA0::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_TwoA0::A,
            1 => D_TwoA0::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_TwoA0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecA0 {
    A,
    B { #[cbor(optional)] x: [Own<0>; 1], y: u8 },
}
impl Subj for E_RecA0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecA0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <[Own<0>; 1] as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecA0::A => D::Var(0, vec![]),
            E_RecA0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecA0::A,
            1 => E_RecA0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecA0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecA0 {
    A,
    B { #[cbor(optional)] x: [Own<0>; 1], y: u8 },
}
impl Subj for G_RecA0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecA0".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <[Own<0>; 1] as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecA0::A => D::Var(0, vec![]),
            G_RecA0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecA0::A,
            1 => G_RecA0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecA0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecA0 {
    A,
    #[cbor(missing)] B { #[cbor(optional)] x: [Own<0>; 1], y: u8 },
}
impl Subj for M_RecA0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecA0".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <[Own<0>; 1] as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecA0::A => D::Var(0, vec![]),
            M_RecA0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecA0::A,
            1 => M_RecA0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecA0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrA0 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: [Own<0>; 1], y: u8 },
}
impl Subj for E_ArrA0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrA0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <[Own<0>; 1] as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrA0::A => D::Var(0, vec![]),
            E_ArrA0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrA0::A,
            1 => E_ArrA0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrA0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkA0 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: [Own<0>; 1] },
}
impl Subj for E_UnkA0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkA0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <[Own<0>; 1] as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkA0::A => D::Var(0, vec![]),
            E_UnkA0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkA0::A,
            1 => E_UnkA0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkA0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_UnkA0 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: [Own<0>; 1] },
}
impl Subj for U_UnkA0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_UnkA0".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <[Own<0>; 1] as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_UnkA0::A => D::Var(0, vec![]),
            U_UnkA0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_UnkA0::A,
            1 => U_UnkA0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_UnkA0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_UnkA0 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: [Own<0>; 1] },
}
impl Subj for D_UnkA0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_UnkA0".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <[Own<0>; 1] as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_UnkA0::A => D::Var(0, vec![]),
            D_UnkA0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_UnkA0::A,
            1 => D_UnkA0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_UnkA0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkA0 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: [Own<0>; 1] },
}
impl Subj for G_UnkA0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkA0".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <[Own<0>; 1] as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkA0::A => D::Var(0, vec![]),
            G_UnkA0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkA0::A,
            1 => G_UnkA0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkA0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkA0 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional)] x: [Own<0>; 1] },
}
impl Subj for M_UnkA0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkA0".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <[Own<0>; 1] as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkA0::A => D::Var(0, vec![]),
            M_UnkA0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkA0::A,
            1 => M_UnkA0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkA0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoR0 {
    A,
    B(#[cbor(rename = 300)] Own<0>, u8),
}
impl Subj for E_TwoR0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoR0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoR0::A => D::Var(0, vec![]),
            E_TwoR0::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoR0::A,
            1 => E_TwoR0::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoR0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecR0 {
    A,
    B { #[cbor(rename = 300)] x: Own<0>, y: u8 },
}
impl Subj for E_RecR0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecR0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecR0::A => D::Var(0, vec![]),
            E_RecR0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecR0::A,
            1 => E_RecR0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecR0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_RecR0 {
    A,
    B { #[cbor(rename = 300)] x: Own<0>, y: u8 },
}
impl Subj for U_RecR0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_RecR0".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_RecR0::A => D::Var(0, vec![]),
            U_RecR0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_RecR0::A,
            1 => U_RecR0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_RecR0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_RecR0 {
    A,
    B { #[cbor(rename = 300)] x: Own<0>, y: u8 },
}
impl Subj for D_RecR0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_RecR0".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_RecR0::A => D::Var(0, vec![]),
            D_RecR0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_RecR0::A,
            1 => D_RecR0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_RecR0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecR0 {
    A,
    B { #[cbor(rename = 300)] x: Own<0>, y: u8 },
}
impl Subj for G_RecR0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecR0".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecR0::A => D::Var(0, vec![]),
            G_RecR0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecR0::A,
            1 => G_RecR0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecR0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecR0 {
    A,
    #[cbor(missing)] B { #[cbor(rename = 300)] x: Own<0>, y: u8 },
}
impl Subj for M_RecR0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecR0".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecR0::A => D::Var(0, vec![]),
            M_RecR0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecR0::A,
            1 => M_RecR0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecR0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrR0 {
    A,
    #[cbor(as_array)] B { #[cbor(rename = 300)] x: Own<0>, y: u8 },
}
impl Subj for E_ArrR0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrR0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(300), <Own<0> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrR0::A => D::Var(0, vec![]),
            E_ArrR0::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrR0::A,
            1 => E_ArrR0::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrR0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkR0 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(rename = 300)] x: Own<0> },
}
impl Subj for E_UnkR0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkR0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(M::U(300), <Own<0> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkR0::A => D::Var(0, vec![]),
            E_UnkR0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkR0::A,
            1 => E_UnkR0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkR0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkR0 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(rename = 300)] x: Own<0> },
}
impl Subj for G_UnkR0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkR0".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(M::U(300), <Own<0> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkR0::A => D::Var(0, vec![]),
            G_UnkR0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkR0::A,
            1 => G_UnkR0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkR0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkR0 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(rename = 300)] x: Own<0> },
}
impl Subj for M_UnkR0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkR0".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(M::U(300), <Own<0> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkR0::A => D::Var(0, vec![]),
            M_UnkR0::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkR0::A,
            1 => M_UnkR0::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkR0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecI1 {
    A,
    B { #[cbor(optional, skip_serializing_if = "is_seven")] x: Own<1>, y: u8 },
}
impl Subj for E_RecI1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecI1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<1> as Subj>::ty()).opt().skip_when(seven), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecI1::A => D::Var(0, vec![]),
            E_RecI1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecI1::A,
            1 => E_RecI1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecI1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecI1 {
    A,
    B { #[cbor(optional, skip_serializing_if = "is_seven")] x: Own<1>, y: u8 },
}
impl Subj for G_RecI1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecI1".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<1> as Subj>::ty()).opt().skip_when(seven), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecI1::A => D::Var(0, vec![]),
            G_RecI1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecI1::A,
            1 => G_RecI1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecI1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecI1 {
    A,
    #[cbor(missing)] B { #[cbor(optional, skip_serializing_if = "is_seven")] x: Own<1>, y: u8 },
}
impl Subj for M_RecI1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecI1".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <Own<1> as Subj>::ty()).opt().skip_when(seven), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecI1::A => D::Var(0, vec![]),
            M_RecI1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecI1::A,
            1 => M_RecI1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecI1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkI1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional, skip_serializing_if = "is_seven")] x: Own<1> },
}
impl Subj for E_UnkI1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkI1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<1> as Subj>::ty()).opt().skip_when(seven)] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkI1::A => D::Var(0, vec![]),
            E_UnkI1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkI1::A,
            1 => E_UnkI1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkI1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkI1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional, skip_serializing_if = "is_seven")] x: Own<1> },
}
impl Subj for G_UnkI1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkI1".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<1> as Subj>::ty()).opt().skip_when(seven)] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkI1::A => D::Var(0, vec![]),
            G_UnkI1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkI1::A,
            1 => G_UnkI1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkI1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkI1 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional, skip_serializing_if = "is_seven")] x: Own<1> },
}
impl Subj for M_UnkI1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkI1".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <Own<1> as Subj>::ty()).opt().skip_when(seven)] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkI1::A => D::Var(0, vec![]),
            M_UnkI1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkI1::A,
            1 => M_UnkI1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkI1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoS1 {
    A,
    B(#[cbor(skip)] Own<1>, u8),
}
impl Subj for E_TwoS1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoS1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<1> as Subj>::ty()).skipped(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoS1::A => D::Var(0, vec![]),
            E_TwoS1::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoS1::A,
            1 => E_TwoS1::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoS1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_TwoS1 {
    A,
    B(#[cbor(skip)] Own<1>, u8),
}
impl Subj for U_TwoS1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_TwoS1".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<1> as Subj>::ty()).skipped(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_TwoS1::A => D::Var(0, vec![]),
            U_TwoS1::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_TwoS1::A,
            1 => U_TwoS1::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_TwoS1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_TwoS1 {
    A,
    B(#[cbor(skip)] Own<1>, u8),
}
impl Subj for D_TwoS1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_TwoS1".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<1> as Subj>::ty()).skipped(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_TwoS1::A => D::Var(0, vec![]),
            D_TwoS1::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_TwoS1::A,
            1 => D_TwoS1::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_TwoS1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecS1 {
    A,
    B { #[cbor(skip)] x: Own<1>, y: u8 },
}
impl Subj for E_RecS1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecS1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<1> as Subj>::ty()).skipped(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecS1::A => D::Var(0, vec![]),
            E_RecS1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecS1::A,
            1 => E_RecS1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecS1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecS1 {
    A,
    B { #[cbor(skip)] x: Own<1>, y: u8 },
}
impl Subj for G_RecS1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecS1".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<1> as Subj>::ty()).skipped(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecS1::A => D::Var(0, vec![]),
            G_RecS1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecS1::A,
            1 => G_RecS1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecS1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecS1 {
    A,
    #[cbor(missing)] B { #[cbor(skip)] x: Own<1>, y: u8 },
}
impl Subj for M_RecS1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecS1".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <Own<1> as Subj>::ty()).skipped(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecS1::A => D::Var(0, vec![]),
            M_RecS1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecS1::A,
            1 => M_RecS1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecS1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrS1 {
    A,
    #[cbor(as_array)] B { #[cbor(skip)] x: Own<1>, y: u8 },
}
impl Subj for E_ArrS1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrS1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<1> as Subj>::ty()).skipped(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrS1::A => D::Var(0, vec![]),
            E_ArrS1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrS1::A,
            1 => E_ArrS1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrS1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkS1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(skip)] x: Own<1> },
}
impl Subj for E_UnkS1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkS1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<1> as Subj>::ty()).skipped()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkS1::A => D::Var(0, vec![]),
            E_UnkS1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkS1::A,
            1 => E_UnkS1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkS1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_UnkS1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(skip)] x: Own<1> },
}
impl Subj for U_UnkS1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_UnkS1".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<1> as Subj>::ty()).skipped()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_UnkS1::A => D::Var(0, vec![]),
            U_UnkS1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_UnkS1::A,
            1 => U_UnkS1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_UnkS1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_UnkS1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(skip)] x: Own<1> },
}
impl Subj for D_UnkS1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_UnkS1".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<1> as Subj>::ty()).skipped()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_UnkS1::A => D::Var(0, vec![]),
            D_UnkS1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_UnkS1::A,
            1 => D_UnkS1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_UnkS1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkS1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(skip)] x: Own<1> },
}
impl Subj for G_UnkS1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkS1".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<1> as Subj>::ty()).skipped()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkS1::A => D::Var(0, vec![]),
            G_UnkS1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkS1::A,
            1 => G_UnkS1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkS1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkS1 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(skip)] x: Own<1> },
}
impl Subj for M_UnkS1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkS1".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <Own<1> as Subj>::ty()).skipped()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkS1::A => D::Var(0, vec![]),
            M_UnkS1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkS1::A,
            1 => M_UnkS1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkS1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_NewW1 {
    A,
    B(#[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] u8),
}
impl Subj for E_NewW1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NewW1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<1>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NewW1::A => D::Var(0, vec![]),
            E_NewW1::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NewW1::A,
            1 => E_NewW1::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_NewW1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoW1 {
    A,
    B(#[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] u8, u8),
}
impl Subj for E_TwoW1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoW1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<1>()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoW1::A => D::Var(0, vec![]),
            E_TwoW1::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoW1::A,
            1 => E_TwoW1::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoW1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecW1 {
    A,
    B { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] x: u8, y: u8 },
}
impl Subj for E_RecW1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecW1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecW1::A => D::Var(0, vec![]),
            E_RecW1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecW1::A,
            1 => E_RecW1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecW1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_RecW1 {
    A,
    B { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] x: u8, y: u8 },
}
impl Subj for U_RecW1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_RecW1".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_RecW1::A => D::Var(0, vec![]),
            U_RecW1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_RecW1::A,
            1 => U_RecW1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_RecW1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_RecW1 {
    A,
    B { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] x: u8, y: u8 },
}
impl Subj for D_RecW1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_RecW1".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_RecW1::A => D::Var(0, vec![]),
            D_RecW1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_RecW1::A,
            1 => D_RecW1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_RecW1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecW1 {
    A,
    B { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] x: u8, y: u8 },
}
impl Subj for G_RecW1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecW1".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecW1::A => D::Var(0, vec![]),
            G_RecW1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecW1::A,
            1 => G_RecW1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecW1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecW1 {
    A,
    #[cbor(missing)] B { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] x: u8, y: u8 },
}
impl Subj for M_RecW1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecW1".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecW1::A => D::Var(0, vec![]),
            M_RecW1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecW1::A,
            1 => M_RecW1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecW1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrW1 {
    A,
    #[cbor(as_array)] B { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] x: u8, y: u8 },
}
impl Subj for E_ArrW1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrW1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<1>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrW1::A => D::Var(0, vec![]),
            E_ArrW1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrW1::A,
            1 => E_ArrW1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrW1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkW1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] x: u8 },
}
impl Subj for E_UnkW1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkW1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<1>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkW1::A => D::Var(0, vec![]),
            E_UnkW1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkW1::A,
            1 => E_UnkW1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkW1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkW1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] x: u8 },
}
impl Subj for G_UnkW1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkW1".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<1>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkW1::A => D::Var(0, vec![]),
            G_UnkW1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkW1::A,
            1 => G_UnkW1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkW1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkW1 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] x: u8 },
}
impl Subj for M_UnkW1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkW1".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<1>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkW1::A => D::Var(0, vec![]),
            M_UnkW1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkW1::A,
            1 => M_UnkW1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkW1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_NewX1 {
    A,
    B(#[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] u8),
}
impl Subj for E_NewX1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NewX1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<1>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NewX1::A => D::Var(0, vec![]),
            E_NewX1::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NewX1::A,
            1 => E_NewX1::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_NewX1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_NewX1 {
    A,
    B(#[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] u8),
}
impl Subj for U_NewX1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_NewX1".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<1>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_NewX1::A => D::Var(0, vec![]),
            U_NewX1::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_NewX1::A,
            1 => U_NewX1::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_NewX1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_NewX1 {
    A,
    B(#[cbor(serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] u8),
}
impl Subj for D_NewX1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_NewX1".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<1>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_NewX1::A => D::Var(0, vec![]),
            D_NewX1::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_NewX1::A,
            1 => D_NewX1::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_NewX1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoX1 {
    A,
    B(#[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] u8, u8),
}
impl Subj for E_TwoX1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoX1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoX1::A => D::Var(0, vec![]),
            E_TwoX1::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoX1::A,
            1 => E_TwoX1::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoX1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecX1 {
    A,
    B { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] x: u8, y: u8 },
}
impl Subj for E_RecX1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecX1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecX1::A => D::Var(0, vec![]),
            E_RecX1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecX1::A,
            1 => E_RecX1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecX1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecX1 {
    A,
    B { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] x: u8, y: u8 },
}
impl Subj for G_RecX1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecX1".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecX1::A => D::Var(0, vec![]),
            G_RecX1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecX1::A,
            1 => G_RecX1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecX1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecX1 {
    A,
    #[cbor(missing)] B { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] x: u8, y: u8 },
}
impl Subj for M_RecX1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecX1".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecX1::A => D::Var(0, vec![]),
            M_RecX1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecX1::A,
            1 => M_RecX1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecX1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrX1 {
    A,
    #[cbor(as_array)] B { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] x: u8, y: u8 },
}
impl Subj for E_ArrX1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrX1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrX1::A => D::Var(0, vec![]),
            E_ArrX1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrX1::A,
            1 => E_ArrX1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrX1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_ArrX1 {
    A,
    #[cbor(as_array)] B { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] x: u8, y: u8 },
}
impl Subj for U_ArrX1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_ArrX1".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_ArrX1::A => D::Var(0, vec![]),
            U_ArrX1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_ArrX1::A,
            1 => U_ArrX1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_ArrX1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_ArrX1 {
    A,
    #[cbor(as_array)] B { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] x: u8, y: u8 },
}
impl Subj for D_ArrX1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_ArrX1".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<1>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_ArrX1::A => D::Var(0, vec![]),
            D_ArrX1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_ArrX1::A,
            1 => D_ArrX1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_ArrX1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkX1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] x: u8 },
}
impl Subj for E_UnkX1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkX1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<1>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkX1::A => D::Var(0, vec![]),
            E_UnkX1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkX1::A,
            1 => E_UnkX1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkX1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkX1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] x: u8 },
}
impl Subj for G_UnkX1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkX1".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<1>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkX1::A => D::Var(0, vec![]),
            G_UnkX1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkX1::A,
            1 => G_UnkX1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkX1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkX1 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional, serialize_with = "ser_own::<1>", deserialize_with = "de_own::<1>")] x: u8 },
}
impl Subj for M_UnkX1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkX1".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<1>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkX1::A => D::Var(0, vec![]),
            M_UnkX1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkX1::A,
            1 => M_UnkX1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkX1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoT1 {
    A,
    B(#[cbor(optional)] (Own<1>, u8), u8),
}
impl Subj for E_TwoT1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoT1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <(Own<1>, u8) as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoT1::A => D::Var(0, vec![]),
            E_TwoT1::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoT1::A,
            1 => E_TwoT1::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoT1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_TwoT1 {
    A,
    B(#[cbor(optional)] (Own<1>, u8), u8),
}
impl Subj for U_TwoT1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_TwoT1".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <(Own<1>, u8) as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_TwoT1::A => D::Var(0, vec![]),
            U_TwoT1::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_TwoT1::A,
            1 => U_TwoT1::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_TwoT1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_TwoT1 {
    A,
    B(#[cbor(optional)] (Own<1>, u8), u8),
}
impl Subj for D_TwoT1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_TwoT1".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <(Own<1>, u8) as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_TwoT1::A => D::Var(0, vec![]),
            D_TwoT1::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_TwoT1::A,
            1 => D_TwoT1::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_TwoT1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecT1 {
    A,
    B { #[cbor(optional)] x: (Own<1>, u8), y: u8 },
}
impl Subj for E_RecT1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecT1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecT1::A => D::Var(0, vec![]),
            E_RecT1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecT1::A,
            1 => E_RecT1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecT1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecT1 {
    A,
    B { #[cbor(optional)] x: (Own<1>, u8), y: u8 },
}
impl Subj for G_RecT1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecT1".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecT1::A => D::Var(0, vec![]),
            G_RecT1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecT1::A,
            1 => G_RecT1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecT1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecT1 {
    A,
    #[cbor(missing)] B { #[cbor(optional)] x: (Own<1>, u8), y: u8 },
}
impl Subj for M_RecT1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecT1".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecT1::A => D::Var(0, vec![]),
            M_RecT1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecT1::A,
            1 => M_RecT1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecT1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrT1 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: (Own<1>, u8), y: u8 },
}
impl Subj for E_ArrT1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrT1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<1>, u8) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrT1::A => D::Var(0, vec![]),
            E_ArrT1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrT1::A,
            1 => E_ArrT1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrT1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkT1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: (Own<1>, u8) },
}
impl Subj for E_UnkT1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkT1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <(Own<1>, u8) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkT1::A => D::Var(0, vec![]),
            E_UnkT1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkT1::A,
            1 => E_UnkT1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkT1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_UnkT1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: (Own<1>, u8) },
}
impl Subj for U_UnkT1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_UnkT1".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <(Own<1>, u8) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_UnkT1::A => D::Var(0, vec![]),
            U_UnkT1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_UnkT1::A,
            1 => U_UnkT1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_UnkT1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_UnkT1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: (Own<1>, u8) },
}
impl Subj for D_UnkT1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_UnkT1".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <(Own<1>, u8) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_UnkT1::A => D::Var(0, vec![]),
            D_UnkT1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_UnkT1::A,
            1 => D_UnkT1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_UnkT1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkT1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: (Own<1>, u8) },
}
impl Subj for G_UnkT1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkT1".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <(Own<1>, u8) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkT1::A => D::Var(0, vec![]),
            G_UnkT1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkT1::A,
            1 => G_UnkT1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkT1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkT1 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional)] x: (Own<1>, u8) },
}
impl Subj for M_UnkT1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkT1".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <(Own<1>, u8) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkT1::A => D::Var(0, vec![]),
            M_UnkT1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkT1::A,
            1 => M_UnkT1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkT1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoU1 {
    A,
    B(#[cbor(optional)] (Own<1>, Own<1>), u8),
}
impl Subj for E_TwoU1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoU1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <(Own<1>, Own<1>) as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoU1::A => D::Var(0, vec![]),
            E_TwoU1::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoU1::A,
            1 => E_TwoU1::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoU1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecU1 {
    A,
    B { #[cbor(optional)] x: (Own<1>, Own<1>), y: u8 },
}
impl Subj for E_RecU1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecU1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<1>, Own<1>) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecU1::A => D::Var(0, vec![]),
            E_RecU1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecU1::A,
            1 => E_RecU1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecU1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_RecU1 {
    A,
    B { #[cbor(optional)] x: (Own<1>, Own<1>), y: u8 },
}
impl Subj for U_RecU1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_RecU1".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<1>, Own<1>) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_RecU1::A => D::Var(0, vec![]),
            U_RecU1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_RecU1::A,
            1 => U_RecU1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_RecU1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_RecU1 {
    A,
    B { #[cbor(optional)] x: (Own<1>, Own<1>), y: u8 },
}
impl Subj for D_RecU1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_RecU1".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<1>, Own<1>) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_RecU1::A => D::Var(0, vec![]),
            D_RecU1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_RecU1::A,
            1 => D_RecU1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_RecU1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecU1 {
    A,
    B { #[cbor(optional)] x: (Own<1>, Own<1>), y: u8 },
}
impl Subj for G_RecU1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecU1".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<1>, Own<1>) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecU1::A => D::Var(0, vec![]),
            G_RecU1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecU1::A,
            1 => G_RecU1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecU1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecU1 {
    A,
    #[cbor(missing)] B { #[cbor(optional)] x: (Own<1>, Own<1>), y: u8 },
}
impl Subj for M_RecU1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecU1".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <(Own<1>, Own<1>) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecU1::A => D::Var(0, vec![]),
            M_RecU1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecU1::A,
            1 => M_RecU1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecU1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrU1 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: (Own<1>, Own<1>), y: u8 },
}
impl Subj for E_ArrU1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrU1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<1>, Own<1>) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrU1::A => D::Var(0, vec![]),
            E_ArrU1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrU1::A,
            1 => E_ArrU1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrU1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkU1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: (Own<1>, Own<1>) },
}
impl Subj for E_UnkU1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkU1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <(Own<1>, Own<1>) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkU1::A => D::Var(0, vec![]),
            E_UnkU1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkU1::A,
            1 => E_UnkU1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkU1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkU1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: (Own<1>, Own<1>) },
}
impl Subj for G_UnkU1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkU1".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <(Own<1>, Own<1>) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkU1::A => D::Var(0, vec![]),
            G_UnkU1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkU1::A,
            1 => G_UnkU1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkU1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkU1 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional)] x: (Own<1>, Own<1>) },
}
impl Subj for M_UnkU1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkU1".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <(Own<1>, Own<1>) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkU1::A => D::Var(0, vec![]),
            M_UnkU1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkU1::A,
            1 => M_UnkU1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkU1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoV1 {
    A,
    B(#[cbor(optional)] Vec<Own<1>>, u8),
}
impl Subj for E_TwoV1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoV1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<Own<1>> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoV1::A => D::Var(0, vec![]),
            E_TwoV1::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoV1::A,
            1 => E_TwoV1::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoV1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecV1 {
    A,
    B { #[cbor(optional)] x: Vec<Own<1>>, y: u8 },
}
impl Subj for E_RecV1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecV1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Vec<Own<1>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecV1::A => D::Var(0, vec![]),
            E_RecV1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecV1::A,
            1 => E_RecV1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecV1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecV1 {
    A,
    B { #[cbor(optional)] x: Vec<Own<1>>, y: u8 },
}
impl Subj for G_RecV1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecV1".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Vec<Own<1>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecV1::A => D::Var(0, vec![]),
            G_RecV1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecV1::A,
            1 => G_RecV1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecV1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecV1 {
    A,
    #[cbor(missing)] B { #[cbor(optional)] x: Vec<Own<1>>, y: u8 },
}
impl Subj for M_RecV1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecV1".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <Vec<Own<1>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecV1::A => D::Var(0, vec![]),
            M_RecV1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecV1::A,
            1 => M_RecV1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecV1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrV1 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: Vec<Own<1>>, y: u8 },
}
impl Subj for E_ArrV1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrV1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Vec<Own<1>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrV1::A => D::Var(0, vec![]),
            E_ArrV1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrV1::A,
            1 => E_ArrV1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrV1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_ArrV1 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: Vec<Own<1>>, y: u8 },
}
impl Subj for U_ArrV1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_ArrV1".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Vec<Own<1>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_ArrV1::A => D::Var(0, vec![]),
            U_ArrV1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_ArrV1::A,
            1 => U_ArrV1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_ArrV1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_ArrV1 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: Vec<Own<1>>, y: u8 },
}
impl Subj for D_ArrV1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_ArrV1".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Vec<Own<1>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_ArrV1::A => D::Var(0, vec![]),
            D_ArrV1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_ArrV1::A,
            1 => D_ArrV1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_ArrV1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkV1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Vec<Own<1>> },
}
impl Subj for E_UnkV1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkV1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Vec<Own<1>> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkV1::A => D::Var(0, vec![]),
            E_UnkV1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkV1::A,
            1 => E_UnkV1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkV1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkV1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Vec<Own<1>> },
}
impl Subj for G_UnkV1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkV1".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Vec<Own<1>> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkV1::A => D::Var(0, vec![]),
            G_UnkV1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkV1::A,
            1 => G_UnkV1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkV1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkV1 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional)] x: Vec<Own<1>> },
}
impl Subj for M_UnkV1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkV1".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <Vec<Own<1>> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkV1::A => D::Var(0, vec![]),
            M_UnkV1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkV1::A,
            1 => M_UnkV1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkV1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoA1 {
    A,
    B(#[cbor(optional)] [Own<1>; 1], u8),
}
impl Subj for E_TwoA1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoA1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <[Own<1>; 1] as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoA1::A => D::Var(0, vec![]),
            E_TwoA1::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoA1::A,
            1 => E_TwoA1::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoA1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_TwoA1 {
    A,
    B(#[cbor(optional)] [Own<1>; 1], u8),
}
impl Subj for U_TwoA1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_TwoA1".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <[Own<1>; 1] as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_TwoA1::A => D::Var(0, vec![]),
            U_TwoA1::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_TwoA1::A,
            1 => U_TwoA1::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_TwoA1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_TwoA1 {
    A,
    B(#[cbor(optional)] [Own<1>; 1], u8),
}
impl Subj for D_TwoA1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_TwoA1".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <[Own<1>; 1] as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_TwoA1::A => D::Var(0, vec![]),
            D_TwoA1::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_TwoA1::A,
            1 => D_TwoA1::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_TwoA1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecA1 {
    A,
    B { #[cbor(optional)] x: [Own<1>; 1], y: u8 },
}
impl Subj for E_RecA1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecA1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <[Own<1>; 1] as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecA1::A => D::Var(0, vec![]),
            E_RecA1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecA1::A,
            1 => E_RecA1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecA1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecA1 {
    A,
    B { #[cbor(optional)] x: [Own<1>; 1], y: u8 },
}
impl Subj for G_RecA1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecA1".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <[Own<1>; 1] as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecA1::A => D::Var(0, vec![]),
            G_RecA1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecA1::A,
            1 => G_RecA1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecA1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecA1 {
    A,
    #[cbor(missing)] B { #[cbor(optional)] x: [Own<1>; 1], y: u8 },
}
impl Subj for M_RecA1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecA1".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <[Own<1>; 1] as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecA1::A => D::Var(0, vec![]),
            M_RecA1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecA1::A,
            1 => M_RecA1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecA1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrA1 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: [Own<1>; 1], y: u8 },
}
impl Subj for E_ArrA1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrA1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <[Own<1>; 1] as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrA1::A => D::Var(0, vec![]),
            E_ArrA1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrA1::A,
            1 => E_ArrA1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrA1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkA1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: [Own<1>; 1] },
}
impl Subj for E_UnkA1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkA1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <[Own<1>; 1] as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkA1::A => D::Var(0, vec![]),
            E_UnkA1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkA1::A,
            1 => E_UnkA1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkA1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_UnkA1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: [Own<1>; 1] },
}
impl Subj for U_UnkA1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_UnkA1".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <[Own<1>; 1] as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_UnkA1::A => D::Var(0, vec![]),
            U_UnkA1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_UnkA1::A,
            1 => U_UnkA1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_UnkA1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_UnkA1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: [Own<1>; 1] },
}
impl Subj for D_UnkA1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_UnkA1".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <[Own<1>; 1] as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_UnkA1::A => D::Var(0, vec![]),
            D_UnkA1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_UnkA1::A,
            1 => D_UnkA1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_UnkA1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkA1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: [Own<1>; 1] },
}
impl Subj for G_UnkA1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkA1".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <[Own<1>; 1] as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkA1::A => D::Var(0, vec![]),
            G_UnkA1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkA1::A,
            1 => G_UnkA1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkA1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkA1 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional)] x: [Own<1>; 1] },
}
impl Subj for M_UnkA1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkA1".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <[Own<1>; 1] as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkA1::A => D::Var(0, vec![]),
            M_UnkA1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkA1::A,
            1 => M_UnkA1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkA1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoR1 {
    A,
    B(#[cbor(rename = 301)] Own<1>, u8),
}
impl Subj for E_TwoR1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoR1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoR1::A => D::Var(0, vec![]),
            E_TwoR1::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoR1::A,
            1 => E_TwoR1::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoR1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecR1 {
    A,
    B { #[cbor(rename = 301)] x: Own<1>, y: u8 },
}
impl Subj for E_RecR1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecR1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecR1::A => D::Var(0, vec![]),
            E_RecR1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecR1::A,
            1 => E_RecR1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecR1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_RecR1 {
    A,
    B { #[cbor(rename = 301)] x: Own<1>, y: u8 },
}
impl Subj for U_RecR1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_RecR1".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_RecR1::A => D::Var(0, vec![]),
            U_RecR1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_RecR1::A,
            1 => U_RecR1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_RecR1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_RecR1 {
    A,
    B { #[cbor(rename = 301)] x: Own<1>, y: u8 },
}
impl Subj for D_RecR1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_RecR1".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_RecR1::A => D::Var(0, vec![]),
            D_RecR1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_RecR1::A,
            1 => D_RecR1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_RecR1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecR1 {
    A,
    B { #[cbor(rename = 301)] x: Own<1>, y: u8 },
}
impl Subj for G_RecR1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecR1".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecR1::A => D::Var(0, vec![]),
            G_RecR1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecR1::A,
            1 => G_RecR1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecR1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecR1 {
    A,
    #[cbor(missing)] B { #[cbor(rename = 301)] x: Own<1>, y: u8 },
}
impl Subj for M_RecR1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecR1".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecR1::A => D::Var(0, vec![]),
            M_RecR1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecR1::A,
            1 => M_RecR1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecR1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrR1 {
    A,
    #[cbor(as_array)] B { #[cbor(rename = 301)] x: Own<1>, y: u8 },
}
impl Subj for E_ArrR1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrR1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(301), <Own<1> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrR1::A => D::Var(0, vec![]),
            E_ArrR1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrR1::A,
            1 => E_ArrR1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrR1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkR1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(rename = 301)] x: Own<1> },
}
impl Subj for E_UnkR1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkR1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(M::U(301), <Own<1> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkR1::A => D::Var(0, vec![]),
            E_UnkR1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkR1::A,
            1 => E_UnkR1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkR1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkR1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(rename = 301)] x: Own<1> },
}
impl Subj for G_UnkR1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkR1".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(M::U(301), <Own<1> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkR1::A => D::Var(0, vec![]),
            G_UnkR1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkR1::A,
            1 => G_UnkR1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkR1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkR1 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(rename = 301)] x: Own<1> },
}
impl Subj for M_UnkR1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkR1".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(M::U(301), <Own<1> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkR1::A => D::Var(0, vec![]),
            M_UnkR1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkR1::A,
            1 => M_UnkR1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkR1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecI2 {
    A,
    B { #[cbor(optional, skip_serializing_if = "is_seven")] x: Own<2>, y: u8 },
}
impl Subj for E_RecI2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecI2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).opt().skip_when(seven), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecI2::A => D::Var(0, vec![]),
            E_RecI2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecI2::A,
            1 => E_RecI2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecI2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecI2 {
    A,
    B { #[cbor(optional, skip_serializing_if = "is_seven")] x: Own<2>, y: u8 },
}
impl Subj for G_RecI2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecI2".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).opt().skip_when(seven), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecI2::A => D::Var(0, vec![]),
            G_RecI2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecI2::A,
            1 => G_RecI2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecI2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecI2 {
    A,
    #[cbor(missing)] B { #[cbor(optional, skip_serializing_if = "is_seven")] x: Own<2>, y: u8 },
}
impl Subj for M_RecI2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecI2".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).opt().skip_when(seven), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecI2::A => D::Var(0, vec![]),
            M_RecI2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecI2::A,
            1 => M_RecI2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecI2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkI2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional, skip_serializing_if = "is_seven")] x: Own<2> },
}
impl Subj for E_UnkI2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkI2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).opt().skip_when(seven)] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkI2::A => D::Var(0, vec![]),
            E_UnkI2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkI2::A,
            1 => E_UnkI2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkI2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkI2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional, skip_serializing_if = "is_seven")] x: Own<2> },
}
impl Subj for G_UnkI2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkI2".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).opt().skip_when(seven)] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkI2::A => D::Var(0, vec![]),
            G_UnkI2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkI2::A,
            1 => G_UnkI2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkI2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkI2 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional, skip_serializing_if = "is_seven")] x: Own<2> },
}
impl Subj for M_UnkI2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkI2".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).opt().skip_when(seven)] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkI2::A => D::Var(0, vec![]),
            M_UnkI2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkI2::A,
            1 => M_UnkI2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkI2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoS2 {
    A,
    B(#[cbor(skip)] Own<2>, u8),
}
impl Subj for E_TwoS2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoS2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<2> as Subj>::ty()).skipped(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoS2::A => D::Var(0, vec![]),
            E_TwoS2::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoS2::A,
            1 => E_TwoS2::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoS2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_TwoS2 {
    A,
    B(#[cbor(skip)] Own<2>, u8),
}
impl Subj for U_TwoS2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_TwoS2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<2> as Subj>::ty()).skipped(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_TwoS2::A => D::Var(0, vec![]),
            U_TwoS2::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_TwoS2::A,
            1 => U_TwoS2::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_TwoS2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_TwoS2 {
    A,
    B(#[cbor(skip)] Own<2>, u8),
}
impl Subj for D_TwoS2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_TwoS2".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<2> as Subj>::ty()).skipped(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_TwoS2::A => D::Var(0, vec![]),
            D_TwoS2::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_TwoS2::A,
            1 => D_TwoS2::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_TwoS2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecS2 {
    A,
    B { #[cbor(skip)] x: Own<2>, y: u8 },
}
impl Subj for E_RecS2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecS2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).skipped(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecS2::A => D::Var(0, vec![]),
            E_RecS2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecS2::A,
            1 => E_RecS2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecS2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecS2 {
    A,
    B { #[cbor(skip)] x: Own<2>, y: u8 },
}
impl Subj for G_RecS2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecS2".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).skipped(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecS2::A => D::Var(0, vec![]),
            G_RecS2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecS2::A,
            1 => G_RecS2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecS2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecS2 {
    A,
    #[cbor(missing)] B { #[cbor(skip)] x: Own<2>, y: u8 },
}
impl Subj for M_RecS2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecS2".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).skipped(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecS2::A => D::Var(0, vec![]),
            M_RecS2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecS2::A,
            1 => M_RecS2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecS2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrS2 {
    A,
    #[cbor(as_array)] B { #[cbor(skip)] x: Own<2>, y: u8 },
}
impl Subj for E_ArrS2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrS2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).skipped(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrS2::A => D::Var(0, vec![]),
            E_ArrS2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrS2::A,
            1 => E_ArrS2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrS2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkS2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(skip)] x: Own<2> },
}
impl Subj for E_UnkS2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkS2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).skipped()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkS2::A => D::Var(0, vec![]),
            E_UnkS2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkS2::A,
            1 => E_UnkS2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkS2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_UnkS2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(skip)] x: Own<2> },
}
impl Subj for U_UnkS2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_UnkS2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).skipped()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_UnkS2::A => D::Var(0, vec![]),
            U_UnkS2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_UnkS2::A,
            1 => U_UnkS2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_UnkS2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_UnkS2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(skip)] x: Own<2> },
}
impl Subj for D_UnkS2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_UnkS2".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).skipped()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_UnkS2::A => D::Var(0, vec![]),
            D_UnkS2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_UnkS2::A,
            1 => D_UnkS2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_UnkS2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkS2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(skip)] x: Own<2> },
}
impl Subj for G_UnkS2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkS2".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).skipped()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkS2::A => D::Var(0, vec![]),
            G_UnkS2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkS2::A,
            1 => G_UnkS2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkS2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkS2 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(skip)] x: Own<2> },
}
impl Subj for M_UnkS2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkS2".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).skipped()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkS2::A => D::Var(0, vec![]),
            M_UnkS2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkS2::A,
            1 => M_UnkS2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkS2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_NewW2 {
    A,
    B(#[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] u8),
}
impl Subj for E_NewW2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NewW2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<2>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NewW2::A => D::Var(0, vec![]),
            E_NewW2::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NewW2::A,
            1 => E_NewW2::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_NewW2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoW2 {
    A,
    B(#[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] u8, u8),
}
impl Subj for E_TwoW2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoW2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<2>()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoW2::A => D::Var(0, vec![]),
            E_TwoW2::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoW2::A,
            1 => E_TwoW2::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoW2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecW2 {
    A,
    B { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] x: u8, y: u8 },
}
impl Subj for E_RecW2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecW2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecW2::A => D::Var(0, vec![]),
            E_RecW2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecW2::A,
            1 => E_RecW2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecW2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_RecW2 {
    A,
    B { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] x: u8, y: u8 },
}
impl Subj for U_RecW2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_RecW2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_RecW2::A => D::Var(0, vec![]),
            U_RecW2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_RecW2::A,
            1 => U_RecW2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_RecW2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_RecW2 {
    A,
    B { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] x: u8, y: u8 },
}
impl Subj for D_RecW2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_RecW2".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_RecW2::A => D::Var(0, vec![]),
            D_RecW2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_RecW2::A,
            1 => D_RecW2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_RecW2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecW2 {
    A,
    B { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] x: u8, y: u8 },
}
impl Subj for G_RecW2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecW2".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecW2::A => D::Var(0, vec![]),
            G_RecW2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecW2::A,
            1 => G_RecW2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecW2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecW2 {
    A,
    #[cbor(missing)] B { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] x: u8, y: u8 },
}
impl Subj for M_RecW2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecW2".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecW2::A => D::Var(0, vec![]),
            M_RecW2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecW2::A,
            1 => M_RecW2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecW2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrW2 {
    A,
    #[cbor(as_array)] B { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] x: u8, y: u8 },
}
impl Subj for E_ArrW2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrW2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<2>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrW2::A => D::Var(0, vec![]),
            E_ArrW2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrW2::A,
            1 => E_ArrW2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrW2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkW2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] x: u8 },
}
impl Subj for E_UnkW2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkW2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<2>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkW2::A => D::Var(0, vec![]),
            E_UnkW2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkW2::A,
            1 => E_UnkW2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkW2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkW2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] x: u8 },
}
impl Subj for G_UnkW2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkW2".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<2>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkW2::A => D::Var(0, vec![]),
            G_UnkW2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkW2::A,
            1 => G_UnkW2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkW2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkW2 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] x: u8 },
}
impl Subj for M_UnkW2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkW2".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<2>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkW2::A => D::Var(0, vec![]),
            M_UnkW2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkW2::A,
            1 => M_UnkW2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkW2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_NewX2 {
    A,
    B(#[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] u8),
}
impl Subj for E_NewX2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NewX2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<2>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NewX2::A => D::Var(0, vec![]),
            E_NewX2::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NewX2::A,
            1 => E_NewX2::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_NewX2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_NewX2 {
    A,
    B(#[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] u8),
}
impl Subj for U_NewX2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_NewX2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<2>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_NewX2::A => D::Var(0, vec![]),
            U_NewX2::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_NewX2::A,
            1 => U_NewX2::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_NewX2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_NewX2 {
    A,
    B(#[cbor(serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] u8),
}
impl Subj for D_NewX2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_NewX2".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<2>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_NewX2::A => D::Var(0, vec![]),
            D_NewX2::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_NewX2::A,
            1 => D_NewX2::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_NewX2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoX2 {
    A,
    B(#[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] u8, u8),
}
impl Subj for E_TwoX2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoX2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoX2::A => D::Var(0, vec![]),
            E_TwoX2::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoX2::A,
            1 => E_TwoX2::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoX2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecX2 {
    A,
    B { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] x: u8, y: u8 },
}
impl Subj for E_RecX2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecX2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecX2::A => D::Var(0, vec![]),
            E_RecX2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecX2::A,
            1 => E_RecX2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecX2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecX2 {
    A,
    B { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] x: u8, y: u8 },
}
impl Subj for G_RecX2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecX2".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecX2::A => D::Var(0, vec![]),
            G_RecX2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecX2::A,
            1 => G_RecX2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecX2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecX2 {
    A,
    #[cbor(missing)] B { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] x: u8, y: u8 },
}
impl Subj for M_RecX2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecX2".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecX2::A => D::Var(0, vec![]),
            M_RecX2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecX2::A,
            1 => M_RecX2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecX2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrX2 {
    A,
    #[cbor(as_array)] B { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] x: u8, y: u8 },
}
impl Subj for E_ArrX2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrX2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrX2::A => D::Var(0, vec![]),
            E_ArrX2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrX2::A,
            1 => E_ArrX2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrX2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_ArrX2 {
    A,
    #[cbor(as_array)] B { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] x: u8, y: u8 },
}
impl Subj for U_ArrX2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_ArrX2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_ArrX2::A => D::Var(0, vec![]),
            U_ArrX2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_ArrX2::A,
            1 => U_ArrX2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_ArrX2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_ArrX2 {
    A,
    #[cbor(as_array)] B { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] x: u8, y: u8 },
}
impl Subj for D_ArrX2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_ArrX2".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<2>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_ArrX2::A => D::Var(0, vec![]),
            D_ArrX2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_ArrX2::A,
            1 => D_ArrX2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_ArrX2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkX2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] x: u8 },
}
impl Subj for E_UnkX2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkX2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<2>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkX2::A => D::Var(0, vec![]),
            E_UnkX2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkX2::A,
            1 => E_UnkX2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkX2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkX2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] x: u8 },
}
impl Subj for G_UnkX2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkX2".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<2>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkX2::A => D::Var(0, vec![]),
            G_UnkX2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkX2::A,
            1 => G_UnkX2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkX2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkX2 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional, serialize_with = "ser_own::<2>", deserialize_with = "de_own::<2>")] x: u8 },
}
impl Subj for M_UnkX2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkX2".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<2>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkX2::A => D::Var(0, vec![]),
            M_UnkX2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkX2::A,
            1 => M_UnkX2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkX2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoT2 {
    A,
    B(#[cbor(optional)] (Own<2>, u8), u8),
}
impl Subj for E_TwoT2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoT2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <(Own<2>, u8) as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoT2::A => D::Var(0, vec![]),
            E_TwoT2::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoT2::A,
            1 => E_TwoT2::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoT2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_TwoT2 {
    A,
    B(#[cbor(optional)] (Own<2>, u8), u8),
}
impl Subj for U_TwoT2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_TwoT2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <(Own<2>, u8) as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_TwoT2::A => D::Var(0, vec![]),
            U_TwoT2::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_TwoT2::A,
            1 => U_TwoT2::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_TwoT2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_TwoT2 {
    A,
    B(#[cbor(optional)] (Own<2>, u8), u8),
}
impl Subj for D_TwoT2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_TwoT2".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <(Own<2>, u8) as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_TwoT2::A => D::Var(0, vec![]),
            D_TwoT2::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_TwoT2::A,
            1 => D_TwoT2::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_TwoT2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecT2 {
    A,
    B { #[cbor(optional)] x: (Own<2>, u8), y: u8 },
}
impl Subj for E_RecT2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecT2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecT2::A => D::Var(0, vec![]),
            E_RecT2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecT2::A,
            1 => E_RecT2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecT2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecT2 {
    A,
    B { #[cbor(optional)] x: (Own<2>, u8), y: u8 },
}
impl Subj for G_RecT2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecT2".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecT2::A => D::Var(0, vec![]),
            G_RecT2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecT2::A,
            1 => G_RecT2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecT2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecT2 {
    A,
    #[cbor(missing)] B { #[cbor(optional)] x: (Own<2>, u8), y: u8 },
}
impl Subj for M_RecT2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecT2".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecT2::A => D::Var(0, vec![]),
            M_RecT2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecT2::A,
            1 => M_RecT2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecT2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrT2 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: (Own<2>, u8), y: u8 },
}
impl Subj for E_ArrT2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrT2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<2>, u8) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrT2::A => D::Var(0, vec![]),
            E_ArrT2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrT2::A,
            1 => E_ArrT2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrT2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkT2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: (Own<2>, u8) },
}
impl Subj for E_UnkT2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkT2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <(Own<2>, u8) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkT2::A => D::Var(0, vec![]),
            E_UnkT2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkT2::A,
            1 => E_UnkT2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkT2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_UnkT2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: (Own<2>, u8) },
}
impl Subj for U_UnkT2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_UnkT2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <(Own<2>, u8) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_UnkT2::A => D::Var(0, vec![]),
            U_UnkT2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_UnkT2::A,
            1 => U_UnkT2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_UnkT2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_UnkT2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: (Own<2>, u8) },
}
impl Subj for D_UnkT2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_UnkT2".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <(Own<2>, u8) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_UnkT2::A => D::Var(0, vec![]),
            D_UnkT2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_UnkT2::A,
            1 => D_UnkT2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_UnkT2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkT2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: (Own<2>, u8) },
}
impl Subj for G_UnkT2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkT2".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <(Own<2>, u8) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkT2::A => D::Var(0, vec![]),
            G_UnkT2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkT2::A,
            1 => G_UnkT2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkT2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkT2 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional)] x: (Own<2>, u8) },
}
impl Subj for M_UnkT2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkT2".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <(Own<2>, u8) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkT2::A => D::Var(0, vec![]),
            M_UnkT2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkT2::A,
            1 => M_UnkT2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkT2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoU2 {
    A,
    B(#[cbor(optional)] (Own<2>, Own<1>), u8),
}
impl Subj for E_TwoU2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoU2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <(Own<2>, Own<1>) as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoU2::A => D::Var(0, vec![]),
            E_TwoU2::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoU2::A,
            1 => E_TwoU2::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoU2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecU2 {
    A,
    B { #[cbor(optional)] x: (Own<2>, Own<1>), y: u8 },
}
impl Subj for E_RecU2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecU2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<2>, Own<1>) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecU2::A => D::Var(0, vec![]),
            E_RecU2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecU2::A,
            1 => E_RecU2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecU2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_RecU2 {
    A,
    B { #[cbor(optional)] x: (Own<2>, Own<1>), y: u8 },
}
impl Subj for U_RecU2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_RecU2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<2>, Own<1>) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_RecU2::A => D::Var(0, vec![]),
            U_RecU2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_RecU2::A,
            1 => U_RecU2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_RecU2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_RecU2 {
    A,
    B { #[cbor(optional)] x: (Own<2>, Own<1>), y: u8 },
}
impl Subj for D_RecU2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_RecU2".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<2>, Own<1>) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_RecU2::A => D::Var(0, vec![]),
            D_RecU2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_RecU2::A,
            1 => D_RecU2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_RecU2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecU2 {
    A,
    B { #[cbor(optional)] x: (Own<2>, Own<1>), y: u8 },
}
impl Subj for G_RecU2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecU2".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<2>, Own<1>) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecU2::A => D::Var(0, vec![]),
            G_RecU2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecU2::A,
            1 => G_RecU2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecU2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecU2 {
    A,
    #[cbor(missing)] B { #[cbor(optional)] x: (Own<2>, Own<1>), y: u8 },
}
impl Subj for M_RecU2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecU2".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <(Own<2>, Own<1>) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecU2::A => D::Var(0, vec![]),
            M_RecU2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecU2::A,
            1 => M_RecU2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecU2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrU2 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: (Own<2>, Own<1>), y: u8 },
}
impl Subj for E_ArrU2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrU2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<2>, Own<1>) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrU2::A => D::Var(0, vec![]),
            E_ArrU2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrU2::A,
            1 => E_ArrU2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrU2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkU2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: (Own<2>, Own<1>) },
}
impl Subj for E_UnkU2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkU2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <(Own<2>, Own<1>) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkU2::A => D::Var(0, vec![]),
            E_UnkU2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkU2::A,
            1 => E_UnkU2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkU2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkU2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: (Own<2>, Own<1>) },
}
impl Subj for G_UnkU2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkU2".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <(Own<2>, Own<1>) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkU2::A => D::Var(0, vec![]),
            G_UnkU2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkU2::A,
            1 => G_UnkU2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkU2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkU2 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional)] x: (Own<2>, Own<1>) },
}
impl Subj for M_UnkU2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkU2".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <(Own<2>, Own<1>) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkU2::A => D::Var(0, vec![]),
            M_UnkU2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkU2::A,
            1 => M_UnkU2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkU2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoV2 {
    A,
    B(#[cbor(optional)] Vec<Own<2>>, u8),
}
impl Subj for E_TwoV2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoV2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<Own<2>> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoV2::A => D::Var(0, vec![]),
            E_TwoV2::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoV2::A,
            1 => E_TwoV2::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoV2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecV2 {
    A,
    B { #[cbor(optional)] x: Vec<Own<2>>, y: u8 },
}
impl Subj for E_RecV2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecV2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Vec<Own<2>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecV2::A => D::Var(0, vec![]),
            E_RecV2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecV2::A,
            1 => E_RecV2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecV2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecV2 {
    A,
    B { #[cbor(optional)] x: Vec<Own<2>>, y: u8 },
}
impl Subj for G_RecV2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecV2".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Vec<Own<2>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecV2::A => D::Var(0, vec![]),
            G_RecV2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecV2::A,
            1 => G_RecV2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecV2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecV2 {
    A,
    #[cbor(missing)] B { #[cbor(optional)] x: Vec<Own<2>>, y: u8 },
}
impl Subj for M_RecV2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecV2".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <Vec<Own<2>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecV2::A => D::Var(0, vec![]),
            M_RecV2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecV2::A,
            1 => M_RecV2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecV2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrV2 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: Vec<Own<2>>, y: u8 },
}
impl Subj for E_ArrV2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrV2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Vec<Own<2>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrV2::A => D::Var(0, vec![]),
            E_ArrV2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrV2::A,
            1 => E_ArrV2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrV2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_ArrV2 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: Vec<Own<2>>, y: u8 },
}
impl Subj for U_ArrV2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_ArrV2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Vec<Own<2>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_ArrV2::A => D::Var(0, vec![]),
            U_ArrV2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_ArrV2::A,
            1 => U_ArrV2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_ArrV2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_ArrV2 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: Vec<Own<2>>, y: u8 },
}
impl Subj for D_ArrV2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_ArrV2".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Vec<Own<2>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_ArrV2::A => D::Var(0, vec![]),
            D_ArrV2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_ArrV2::A,
            1 => D_ArrV2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_ArrV2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkV2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Vec<Own<2>> },
}
impl Subj for E_UnkV2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkV2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Vec<Own<2>> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkV2::A => D::Var(0, vec![]),
            E_UnkV2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkV2::A,
            1 => E_UnkV2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkV2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkV2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Vec<Own<2>> },
}
impl Subj for G_UnkV2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkV2".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Vec<Own<2>> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkV2::A => D::Var(0, vec![]),
            G_UnkV2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkV2::A,
            1 => G_UnkV2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkV2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkV2 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional)] x: Vec<Own<2>> },
}
impl Subj for M_UnkV2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkV2".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <Vec<Own<2>> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkV2::A => D::Var(0, vec![]),
            M_UnkV2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkV2::A,
            1 => M_UnkV2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkV2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoA2 {
    A,
    B(#[cbor(optional)] [Own<2>; 1], u8),
}
impl Subj for E_TwoA2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoA2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <[Own<2>; 1] as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoA2::A => D::Var(0, vec![]),
            E_TwoA2::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoA2::A,
            1 => E_TwoA2::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoA2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_TwoA2 {
    A,
    B(#[cbor(optional)] [Own<2>; 1], u8),
}
impl Subj for U_TwoA2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_TwoA2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <[Own<2>; 1] as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_TwoA2::A => D::Var(0, vec![]),
            U_TwoA2::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_TwoA2::A,
            1 => U_TwoA2::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_TwoA2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_TwoA2 {
    A,
    B(#[cbor(optional)] [Own<2>; 1], u8),
}
impl Subj for D_TwoA2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_TwoA2".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <[Own<2>; 1] as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_TwoA2::A => D::Var(0, vec![]),
            D_TwoA2::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_TwoA2::A,
            1 => D_TwoA2::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_TwoA2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecA2 {
    A,
    B { #[cbor(optional)] x: [Own<2>; 1], y: u8 },
}
impl Subj for E_RecA2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecA2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <[Own<2>; 1] as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecA2::A => D::Var(0, vec![]),
            E_RecA2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecA2::A,
            1 => E_RecA2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecA2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecA2 {
    A,
    B { #[cbor(optional)] x: [Own<2>; 1], y: u8 },
}
impl Subj for G_RecA2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecA2".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <[Own<2>; 1] as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecA2::A => D::Var(0, vec![]),
            G_RecA2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecA2::A,
            1 => G_RecA2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecA2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecA2 {
    A,
    #[cbor(missing)] B { #[cbor(optional)] x: [Own<2>; 1], y: u8 },
}
impl Subj for M_RecA2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecA2".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <[Own<2>; 1] as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecA2::A => D::Var(0, vec![]),
            M_RecA2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecA2::A,
            1 => M_RecA2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecA2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrA2 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: [Own<2>; 1], y: u8 },
}
impl Subj for E_ArrA2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrA2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <[Own<2>; 1] as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrA2::A => D::Var(0, vec![]),
            E_ArrA2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrA2::A,
            1 => E_ArrA2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrA2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkA2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: [Own<2>; 1] },
}
impl Subj for E_UnkA2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkA2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <[Own<2>; 1] as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkA2::A => D::Var(0, vec![]),
            E_UnkA2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkA2::A,
            1 => E_UnkA2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkA2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_UnkA2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: [Own<2>; 1] },
}
impl Subj for U_UnkA2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_UnkA2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <[Own<2>; 1] as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_UnkA2::A => D::Var(0, vec![]),
            U_UnkA2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_UnkA2::A,
            1 => U_UnkA2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_UnkA2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_UnkA2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: [Own<2>; 1] },
}
impl Subj for D_UnkA2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_UnkA2".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <[Own<2>; 1] as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_UnkA2::A => D::Var(0, vec![]),
            D_UnkA2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_UnkA2::A,
            1 => D_UnkA2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_UnkA2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkA2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: [Own<2>; 1] },
}
impl Subj for G_UnkA2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkA2".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <[Own<2>; 1] as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkA2::A => D::Var(0, vec![]),
            G_UnkA2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkA2::A,
            1 => G_UnkA2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkA2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkA2 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional)] x: [Own<2>; 1] },
}
impl Subj for M_UnkA2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkA2".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <[Own<2>; 1] as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkA2::A => D::Var(0, vec![]),
            M_UnkA2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkA2::A,
            1 => M_UnkA2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkA2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoR2 {
    A,
    B(#[cbor(rename = 302)] Own<2>, u8),
}
impl Subj for E_TwoR2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoR2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoR2::A => D::Var(0, vec![]),
            E_TwoR2::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoR2::A,
            1 => E_TwoR2::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoR2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecR2 {
    A,
    B { #[cbor(rename = 302)] x: Own<2>, y: u8 },
}
impl Subj for E_RecR2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecR2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecR2::A => D::Var(0, vec![]),
            E_RecR2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecR2::A,
            1 => E_RecR2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecR2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_RecR2 {
    A,
    B { #[cbor(rename = 302)] x: Own<2>, y: u8 },
}
impl Subj for U_RecR2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_RecR2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_RecR2::A => D::Var(0, vec![]),
            U_RecR2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_RecR2::A,
            1 => U_RecR2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_RecR2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_RecR2 {
    A,
    B { #[cbor(rename = 302)] x: Own<2>, y: u8 },
}
impl Subj for D_RecR2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_RecR2".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_RecR2::A => D::Var(0, vec![]),
            D_RecR2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_RecR2::A,
            1 => D_RecR2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_RecR2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecR2 {
    A,
    B { #[cbor(rename = 302)] x: Own<2>, y: u8 },
}
impl Subj for G_RecR2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecR2".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecR2::A => D::Var(0, vec![]),
            G_RecR2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecR2::A,
            1 => G_RecR2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecR2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecR2 {
    A,
    #[cbor(missing)] B { #[cbor(rename = 302)] x: Own<2>, y: u8 },
}
impl Subj for M_RecR2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecR2".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecR2::A => D::Var(0, vec![]),
            M_RecR2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecR2::A,
            1 => M_RecR2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecR2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrR2 {
    A,
    #[cbor(as_array)] B { #[cbor(rename = 302)] x: Own<2>, y: u8 },
}
impl Subj for E_ArrR2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrR2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(302), <Own<2> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrR2::A => D::Var(0, vec![]),
            E_ArrR2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrR2::A,
            1 => E_ArrR2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrR2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkR2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(rename = 302)] x: Own<2> },
}
impl Subj for E_UnkR2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkR2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(M::U(302), <Own<2> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkR2::A => D::Var(0, vec![]),
            E_UnkR2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkR2::A,
            1 => E_UnkR2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkR2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkR2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(rename = 302)] x: Own<2> },
}
impl Subj for G_UnkR2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkR2".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(M::U(302), <Own<2> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkR2::A => D::Var(0, vec![]),
            G_UnkR2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkR2::A,
            1 => G_UnkR2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkR2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkR2 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(rename = 302)] x: Own<2> },
}
impl Subj for M_UnkR2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkR2".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(M::U(302), <Own<2> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkR2::A => D::Var(0, vec![]),
            M_UnkR2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkR2::A,
            1 => M_UnkR2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkR2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecI3 {
    A,
    B { #[cbor(optional, skip_serializing_if = "is_seven")] x: Own<3>, y: u8 },
}
impl Subj for E_RecI3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecI3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<3> as Subj>::ty()).opt().skip_when(seven), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecI3::A => D::Var(0, vec![]),
            E_RecI3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecI3::A,
            1 => E_RecI3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecI3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecI3 {
    A,
    B { #[cbor(optional, skip_serializing_if = "is_seven")] x: Own<3>, y: u8 },
}
impl Subj for G_RecI3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecI3".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<3> as Subj>::ty()).opt().skip_when(seven), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecI3::A => D::Var(0, vec![]),
            G_RecI3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecI3::A,
            1 => G_RecI3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecI3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecI3 {
    A,
    #[cbor(missing)] B { #[cbor(optional, skip_serializing_if = "is_seven")] x: Own<3>, y: u8 },
}
impl Subj for M_RecI3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecI3".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <Own<3> as Subj>::ty()).opt().skip_when(seven), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecI3::A => D::Var(0, vec![]),
            M_RecI3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecI3::A,
            1 => M_RecI3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecI3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkI3 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional, skip_serializing_if = "is_seven")] x: Own<3> },
}
impl Subj for E_UnkI3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkI3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<3> as Subj>::ty()).opt().skip_when(seven)] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkI3::A => D::Var(0, vec![]),
            E_UnkI3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkI3::A,
            1 => E_UnkI3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkI3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkI3 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional, skip_serializing_if = "is_seven")] x: Own<3> },
}
impl Subj for G_UnkI3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkI3".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<3> as Subj>::ty()).opt().skip_when(seven)] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkI3::A => D::Var(0, vec![]),
            G_UnkI3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkI3::A,
            1 => G_UnkI3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkI3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkI3 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional, skip_serializing_if = "is_seven")] x: Own<3> },
}
impl Subj for M_UnkI3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkI3".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <Own<3> as Subj>::ty()).opt().skip_when(seven)] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkI3::A => D::Var(0, vec![]),
            M_UnkI3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkI3::A,
            1 => M_UnkI3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkI3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoS3 {
    A,
    B(#[cbor(skip)] Own<3>, u8),
}
impl Subj for E_TwoS3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoS3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<3> as Subj>::ty()).skipped(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoS3::A => D::Var(0, vec![]),
            E_TwoS3::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoS3::A,
            1 => E_TwoS3::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoS3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_TwoS3 {
    A,
    B(#[cbor(skip)] Own<3>, u8),
}
impl Subj for U_TwoS3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_TwoS3".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<3> as Subj>::ty()).skipped(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_TwoS3::A => D::Var(0, vec![]),
            U_TwoS3::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_TwoS3::A,
            1 => U_TwoS3::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_TwoS3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_TwoS3 {
    A,
    B(#[cbor(skip)] Own<3>, u8),
}
impl Subj for D_TwoS3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_TwoS3".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<3> as Subj>::ty()).skipped(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_TwoS3::A => D::Var(0, vec![]),
            D_TwoS3::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_TwoS3::A,
            1 => D_TwoS3::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_TwoS3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecS3 {
    A,
    B { #[cbor(skip)] x: Own<3>, y: u8 },
}
impl Subj for E_RecS3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecS3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<3> as Subj>::ty()).skipped(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecS3::A => D::Var(0, vec![]),
            E_RecS3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecS3::A,
            1 => E_RecS3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecS3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecS3 {
    A,
    B { #[cbor(skip)] x: Own<3>, y: u8 },
}
impl Subj for G_RecS3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecS3".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<3> as Subj>::ty()).skipped(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecS3::A => D::Var(0, vec![]),
            G_RecS3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecS3::A,
            1 => G_RecS3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecS3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecS3 {
    A,
    #[cbor(missing)] B { #[cbor(skip)] x: Own<3>, y: u8 },
}
impl Subj for M_RecS3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecS3".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <Own<3> as Subj>::ty()).skipped(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecS3::A => D::Var(0, vec![]),
            M_RecS3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecS3::A,
            1 => M_RecS3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecS3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrS3 {
    A,
    #[cbor(as_array)] B { #[cbor(skip)] x: Own<3>, y: u8 },
}
impl Subj for E_ArrS3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrS3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<3> as Subj>::ty()).skipped(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrS3::A => D::Var(0, vec![]),
            E_ArrS3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrS3::A,
            1 => E_ArrS3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrS3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkS3 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(skip)] x: Own<3> },
}
impl Subj for E_UnkS3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkS3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<3> as Subj>::ty()).skipped()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkS3::A => D::Var(0, vec![]),
            E_UnkS3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkS3::A,
            1 => E_UnkS3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkS3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_UnkS3 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(skip)] x: Own<3> },
}
impl Subj for U_UnkS3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_UnkS3".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<3> as Subj>::ty()).skipped()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_UnkS3::A => D::Var(0, vec![]),
            U_UnkS3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_UnkS3::A,
            1 => U_UnkS3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_UnkS3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_UnkS3 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(skip)] x: Own<3> },
}
impl Subj for D_UnkS3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_UnkS3".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<3> as Subj>::ty()).skipped()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_UnkS3::A => D::Var(0, vec![]),
            D_UnkS3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_UnkS3::A,
            1 => D_UnkS3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_UnkS3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkS3 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(skip)] x: Own<3> },
}
impl Subj for G_UnkS3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkS3".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<3> as Subj>::ty()).skipped()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkS3::A => D::Var(0, vec![]),
            G_UnkS3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkS3::A,
            1 => G_UnkS3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkS3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkS3 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(skip)] x: Own<3> },
}
impl Subj for M_UnkS3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkS3".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <Own<3> as Subj>::ty()).skipped()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkS3::A => D::Var(0, vec![]),
            M_UnkS3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkS3::A,
            1 => M_UnkS3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkS3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_NewW3 {
    A,
    B(#[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] u8),
}
impl Subj for E_NewW3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NewW3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<3>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NewW3::A => D::Var(0, vec![]),
            E_NewW3::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NewW3::A,
            1 => E_NewW3::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_NewW3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoW3 {
    A,
    B(#[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] u8, u8),
}
impl Subj for E_TwoW3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoW3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<3>()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoW3::A => D::Var(0, vec![]),
            E_TwoW3::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoW3::A,
            1 => E_TwoW3::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoW3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecW3 {
    A,
    B { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] x: u8, y: u8 },
}
impl Subj for E_RecW3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecW3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecW3::A => D::Var(0, vec![]),
            E_RecW3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecW3::A,
            1 => E_RecW3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecW3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_RecW3 {
    A,
    B { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] x: u8, y: u8 },
}
impl Subj for U_RecW3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_RecW3".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_RecW3::A => D::Var(0, vec![]),
            U_RecW3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_RecW3::A,
            1 => U_RecW3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_RecW3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_RecW3 {
    A,
    B { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] x: u8, y: u8 },
}
impl Subj for D_RecW3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_RecW3".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_RecW3::A => D::Var(0, vec![]),
            D_RecW3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_RecW3::A,
            1 => D_RecW3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_RecW3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecW3 {
    A,
    B { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] x: u8, y: u8 },
}
impl Subj for G_RecW3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecW3".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecW3::A => D::Var(0, vec![]),
            G_RecW3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecW3::A,
            1 => G_RecW3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecW3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecW3 {
    A,
    #[cbor(missing)] B { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] x: u8, y: u8 },
}
impl Subj for M_RecW3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecW3".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecW3::A => D::Var(0, vec![]),
            M_RecW3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecW3::A,
            1 => M_RecW3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecW3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrW3 {
    A,
    #[cbor(as_array)] B { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] x: u8, y: u8 },
}
impl Subj for E_ArrW3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrW3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<3>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrW3::A => D::Var(0, vec![]),
            E_ArrW3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrW3::A,
            1 => E_ArrW3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrW3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkW3 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] x: u8 },
}
impl Subj for E_UnkW3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkW3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<3>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkW3::A => D::Var(0, vec![]),
            E_UnkW3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkW3::A,
            1 => E_UnkW3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkW3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkW3 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] x: u8 },
}
impl Subj for G_UnkW3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkW3".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<3>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkW3::A => D::Var(0, vec![]),
            G_UnkW3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkW3::A,
            1 => G_UnkW3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkW3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkW3 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] x: u8 },
}
impl Subj for M_UnkW3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkW3".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <u8 as Subj>::ty()).coded(coded::<3>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkW3::A => D::Var(0, vec![]),
            M_UnkW3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkW3::A,
            1 => M_UnkW3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkW3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_NewX3 {
    A,
    B(#[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] u8),
}
impl Subj for E_NewX3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NewX3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<3>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NewX3::A => D::Var(0, vec![]),
            E_NewX3::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NewX3::A,
            1 => E_NewX3::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_NewX3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_NewX3 {
    A,
    B(#[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] u8),
}
impl Subj for U_NewX3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_NewX3".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<3>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_NewX3::A => D::Var(0, vec![]),
            U_NewX3::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_NewX3::A,
            1 => U_NewX3::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_NewX3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_NewX3 {
    A,
    B(#[cbor(serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] u8),
}
impl Subj for D_NewX3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_NewX3".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).coded(coded::<3>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_NewX3::A => D::Var(0, vec![]),
            D_NewX3::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_NewX3::A,
            1 => D_NewX3::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_NewX3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoX3 {
    A,
    B(#[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] u8, u8),
}
impl Subj for E_TwoX3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoX3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoX3::A => D::Var(0, vec![]),
            E_TwoX3::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoX3::A,
            1 => E_TwoX3::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoX3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecX3 {
    A,
    B { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] x: u8, y: u8 },
}
impl Subj for E_RecX3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecX3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecX3::A => D::Var(0, vec![]),
            E_RecX3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecX3::A,
            1 => E_RecX3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecX3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecX3 {
    A,
    B { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] x: u8, y: u8 },
}
impl Subj for G_RecX3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecX3".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecX3::A => D::Var(0, vec![]),
            G_RecX3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecX3::A,
            1 => G_RecX3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecX3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecX3 {
    A,
    #[cbor(missing)] B { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] x: u8, y: u8 },
}
impl Subj for M_RecX3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecX3".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecX3::A => D::Var(0, vec![]),
            M_RecX3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecX3::A,
            1 => M_RecX3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecX3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrX3 {
    A,
    #[cbor(as_array)] B { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] x: u8, y: u8 },
}
impl Subj for E_ArrX3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrX3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrX3::A => D::Var(0, vec![]),
            E_ArrX3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrX3::A,
            1 => E_ArrX3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrX3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_ArrX3 {
    A,
    #[cbor(as_array)] B { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] x: u8, y: u8 },
}
impl Subj for U_ArrX3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_ArrX3".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_ArrX3::A => D::Var(0, vec![]),
            U_ArrX3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_ArrX3::A,
            1 => U_ArrX3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_ArrX3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_ArrX3 {
    A,
    #[cbor(as_array)] B { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] x: u8, y: u8 },
}
impl Subj for D_ArrX3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_ArrX3".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<3>()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_ArrX3::A => D::Var(0, vec![]),
            D_ArrX3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_ArrX3::A,
            1 => D_ArrX3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_ArrX3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkX3 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] x: u8 },
}
impl Subj for E_UnkX3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkX3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<3>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkX3::A => D::Var(0, vec![]),
            E_UnkX3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkX3::A,
            1 => E_UnkX3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkX3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkX3 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] x: u8 },
}
impl Subj for G_UnkX3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkX3".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<3>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkX3::A => D::Var(0, vec![]),
            G_UnkX3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkX3::A,
            1 => G_UnkX3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkX3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkX3 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional, serialize_with = "ser_own::<3>", deserialize_with = "de_own::<3>")] x: u8 },
}
impl Subj for M_UnkX3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkX3".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt().coded(coded::<3>())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkX3::A => D::Var(0, vec![]),
            M_UnkX3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkX3::A,
            1 => M_UnkX3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkX3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoT3 {
    A,
    B(#[cbor(optional)] (Own<3>, u8), u8),
}
impl Subj for E_TwoT3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoT3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <(Own<3>, u8) as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoT3::A => D::Var(0, vec![]),
            E_TwoT3::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoT3::A,
            1 => E_TwoT3::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoT3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_TwoT3 {
    A,
    B(#[cbor(optional)] (Own<3>, u8), u8),
}
impl Subj for U_TwoT3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_TwoT3".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <(Own<3>, u8) as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_TwoT3::A => D::Var(0, vec![]),
            U_TwoT3::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_TwoT3::A,
            1 => U_TwoT3::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_TwoT3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_TwoT3 {
    A,
    B(#[cbor(optional)] (Own<3>, u8), u8),
}
impl Subj for D_TwoT3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_TwoT3".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <(Own<3>, u8) as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_TwoT3::A => D::Var(0, vec![]),
            D_TwoT3::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_TwoT3::A,
            1 => D_TwoT3::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_TwoT3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecT3 {
    A,
    B { #[cbor(optional)] x: (Own<3>, u8), y: u8 },
}
impl Subj for E_RecT3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecT3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecT3::A => D::Var(0, vec![]),
            E_RecT3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecT3::A,
            1 => E_RecT3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecT3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecT3 {
    A,
    B { #[cbor(optional)] x: (Own<3>, u8), y: u8 },
}
impl Subj for G_RecT3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecT3".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecT3::A => D::Var(0, vec![]),
            G_RecT3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecT3::A,
            1 => G_RecT3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecT3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecT3 {
    A,
    #[cbor(missing)] B { #[cbor(optional)] x: (Own<3>, u8), y: u8 },
}
impl Subj for M_RecT3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecT3".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecT3::A => D::Var(0, vec![]),
            M_RecT3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecT3::A,
            1 => M_RecT3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecT3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrT3 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: (Own<3>, u8), y: u8 },
}
impl Subj for E_ArrT3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrT3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<3>, u8) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrT3::A => D::Var(0, vec![]),
            E_ArrT3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrT3::A,
            1 => E_ArrT3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrT3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkT3 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: (Own<3>, u8) },
}
impl Subj for E_UnkT3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkT3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <(Own<3>, u8) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkT3::A => D::Var(0, vec![]),
            E_UnkT3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkT3::A,
            1 => E_UnkT3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkT3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_UnkT3 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: (Own<3>, u8) },
}
impl Subj for U_UnkT3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_UnkT3".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <(Own<3>, u8) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_UnkT3::A => D::Var(0, vec![]),
            U_UnkT3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_UnkT3::A,
            1 => U_UnkT3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_UnkT3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_UnkT3 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: (Own<3>, u8) },
}
impl Subj for D_UnkT3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_UnkT3".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <(Own<3>, u8) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_UnkT3::A => D::Var(0, vec![]),
            D_UnkT3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_UnkT3::A,
            1 => D_UnkT3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_UnkT3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkT3 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: (Own<3>, u8) },
}
impl Subj for G_UnkT3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkT3".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <(Own<3>, u8) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkT3::A => D::Var(0, vec![]),
            G_UnkT3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkT3::A,
            1 => G_UnkT3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkT3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkT3 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional)] x: (Own<3>, u8) },
}
impl Subj for M_UnkT3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkT3".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <(Own<3>, u8) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkT3::A => D::Var(0, vec![]),
            M_UnkT3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkT3::A,
            1 => M_UnkT3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkT3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoU3 {
    A,
    B(#[cbor(optional)] (Own<3>, Own<1>), u8),
}
impl Subj for E_TwoU3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoU3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <(Own<3>, Own<1>) as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoU3::A => D::Var(0, vec![]),
            E_TwoU3::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoU3::A,
            1 => E_TwoU3::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoU3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecU3 {
    A,
    B { #[cbor(optional)] x: (Own<3>, Own<1>), y: u8 },
}
impl Subj for E_RecU3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecU3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<3>, Own<1>) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecU3::A => D::Var(0, vec![]),
            E_RecU3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecU3::A,
            1 => E_RecU3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecU3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_RecU3 {
    A,
    B { #[cbor(optional)] x: (Own<3>, Own<1>), y: u8 },
}
impl Subj for U_RecU3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_RecU3".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<3>, Own<1>) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_RecU3::A => D::Var(0, vec![]),
            U_RecU3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_RecU3::A,
            1 => U_RecU3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_RecU3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_RecU3 {
    A,
    B { #[cbor(optional)] x: (Own<3>, Own<1>), y: u8 },
}
impl Subj for D_RecU3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_RecU3".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<3>, Own<1>) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_RecU3::A => D::Var(0, vec![]),
            D_RecU3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_RecU3::A,
            1 => D_RecU3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_RecU3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecU3 {
    A,
    B { #[cbor(optional)] x: (Own<3>, Own<1>), y: u8 },
}
impl Subj for G_RecU3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecU3".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<3>, Own<1>) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecU3::A => D::Var(0, vec![]),
            G_RecU3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecU3::A,
            1 => G_RecU3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecU3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecU3 {
    A,
    #[cbor(missing)] B { #[cbor(optional)] x: (Own<3>, Own<1>), y: u8 },
}
impl Subj for M_RecU3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecU3".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <(Own<3>, Own<1>) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecU3::A => D::Var(0, vec![]),
            M_RecU3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecU3::A,
            1 => M_RecU3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecU3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrU3 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: (Own<3>, Own<1>), y: u8 },
}
impl Subj for E_ArrU3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrU3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <(Own<3>, Own<1>) as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrU3::A => D::Var(0, vec![]),
            E_ArrU3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrU3::A,
            1 => E_ArrU3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrU3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkU3 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: (Own<3>, Own<1>) },
}
impl Subj for E_UnkU3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkU3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <(Own<3>, Own<1>) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkU3::A => D::Var(0, vec![]),
            E_UnkU3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkU3::A,
            1 => E_UnkU3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkU3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkU3 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: (Own<3>, Own<1>) },
}
impl Subj for G_UnkU3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkU3".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <(Own<3>, Own<1>) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkU3::A => D::Var(0, vec![]),
            G_UnkU3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkU3::A,
            1 => G_UnkU3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkU3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkU3 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional)] x: (Own<3>, Own<1>) },
}
impl Subj for M_UnkU3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkU3".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <(Own<3>, Own<1>) as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkU3::A => D::Var(0, vec![]),
            M_UnkU3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkU3::A,
            1 => M_UnkU3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkU3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoV3 {
    A,
    B(#[cbor(optional)] Vec<Own<3>>, u8),
}
impl Subj for E_TwoV3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoV3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<Own<3>> as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoV3::A => D::Var(0, vec![]),
            E_TwoV3::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoV3::A,
            1 => E_TwoV3::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoV3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecV3 {
    A,
    B { #[cbor(optional)] x: Vec<Own<3>>, y: u8 },
}
impl Subj for E_RecV3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecV3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Vec<Own<3>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecV3::A => D::Var(0, vec![]),
            E_RecV3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecV3::A,
            1 => E_RecV3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecV3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecV3 {
    A,
    B { #[cbor(optional)] x: Vec<Own<3>>, y: u8 },
}
impl Subj for G_RecV3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecV3".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Vec<Own<3>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecV3::A => D::Var(0, vec![]),
            G_RecV3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecV3::A,
            1 => G_RecV3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecV3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecV3 {
    A,
    #[cbor(missing)] B { #[cbor(optional)] x: Vec<Own<3>>, y: u8 },
}
impl Subj for M_RecV3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecV3".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <Vec<Own<3>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecV3::A => D::Var(0, vec![]),
            M_RecV3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecV3::A,
            1 => M_RecV3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecV3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrV3 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: Vec<Own<3>>, y: u8 },
}
impl Subj for E_ArrV3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrV3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Vec<Own<3>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrV3::A => D::Var(0, vec![]),
            E_ArrV3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrV3::A,
            1 => E_ArrV3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrV3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_ArrV3 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: Vec<Own<3>>, y: u8 },
}
impl Subj for U_ArrV3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_ArrV3".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Vec<Own<3>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_ArrV3::A => D::Var(0, vec![]),
            U_ArrV3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_ArrV3::A,
            1 => U_ArrV3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_ArrV3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_ArrV3 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: Vec<Own<3>>, y: u8 },
}
impl Subj for D_ArrV3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_ArrV3".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Vec<Own<3>> as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_ArrV3::A => D::Var(0, vec![]),
            D_ArrV3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_ArrV3::A,
            1 => D_ArrV3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_ArrV3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkV3 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Vec<Own<3>> },
}
impl Subj for E_UnkV3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkV3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Vec<Own<3>> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkV3::A => D::Var(0, vec![]),
            E_UnkV3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkV3::A,
            1 => E_UnkV3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkV3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkV3 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: Vec<Own<3>> },
}
impl Subj for G_UnkV3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkV3".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Vec<Own<3>> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkV3::A => D::Var(0, vec![]),
            G_UnkV3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkV3::A,
            1 => G_UnkV3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkV3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkV3 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional)] x: Vec<Own<3>> },
}
impl Subj for M_UnkV3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkV3".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <Vec<Own<3>> as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkV3::A => D::Var(0, vec![]),
            M_UnkV3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkV3::A,
            1 => M_UnkV3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkV3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoA3 {
    A,
    B(#[cbor(optional)] [Own<3>; 1], u8),
}
impl Subj for E_TwoA3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoA3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <[Own<3>; 1] as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoA3::A => D::Var(0, vec![]),
            E_TwoA3::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoA3::A,
            1 => E_TwoA3::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoA3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_TwoA3 {
    A,
    B(#[cbor(optional)] [Own<3>; 1], u8),
}
impl Subj for U_TwoA3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_TwoA3".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <[Own<3>; 1] as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_TwoA3::A => D::Var(0, vec![]),
            U_TwoA3::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_TwoA3::A,
            1 => U_TwoA3::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_TwoA3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_TwoA3 {
    A,
    B(#[cbor(optional)] [Own<3>; 1], u8),
}
impl Subj for D_TwoA3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_TwoA3".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <[Own<3>; 1] as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_TwoA3::A => D::Var(0, vec![]),
            D_TwoA3::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_TwoA3::A,
            1 => D_TwoA3::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_TwoA3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecA3 {
    A,
    B { #[cbor(optional)] x: [Own<3>; 1], y: u8 },
}
impl Subj for E_RecA3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecA3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <[Own<3>; 1] as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecA3::A => D::Var(0, vec![]),
            E_RecA3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecA3::A,
            1 => E_RecA3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecA3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecA3 {
    A,
    B { #[cbor(optional)] x: [Own<3>; 1], y: u8 },
}
impl Subj for G_RecA3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecA3".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <[Own<3>; 1] as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecA3::A => D::Var(0, vec![]),
            G_RecA3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecA3::A,
            1 => G_RecA3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecA3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecA3 {
    A,
    #[cbor(missing)] B { #[cbor(optional)] x: [Own<3>; 1], y: u8 },
}
impl Subj for M_RecA3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecA3".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <[Own<3>; 1] as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecA3::A => D::Var(0, vec![]),
            M_RecA3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecA3::A,
            1 => M_RecA3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecA3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrA3 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: [Own<3>; 1], y: u8 },
}
impl Subj for E_ArrA3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrA3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <[Own<3>; 1] as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrA3::A => D::Var(0, vec![]),
            E_ArrA3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrA3::A,
            1 => E_ArrA3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrA3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkA3 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: [Own<3>; 1] },
}
impl Subj for E_UnkA3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkA3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <[Own<3>; 1] as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkA3::A => D::Var(0, vec![]),
            E_UnkA3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkA3::A,
            1 => E_UnkA3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkA3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_UnkA3 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: [Own<3>; 1] },
}
impl Subj for U_UnkA3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_UnkA3".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <[Own<3>; 1] as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_UnkA3::A => D::Var(0, vec![]),
            U_UnkA3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_UnkA3::A,
            1 => U_UnkA3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_UnkA3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_UnkA3 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: [Own<3>; 1] },
}
impl Subj for D_UnkA3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_UnkA3".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <[Own<3>; 1] as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_UnkA3::A => D::Var(0, vec![]),
            D_UnkA3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_UnkA3::A,
            1 => D_UnkA3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_UnkA3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkA3 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: [Own<3>; 1] },
}
impl Subj for G_UnkA3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkA3".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <[Own<3>; 1] as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkA3::A => D::Var(0, vec![]),
            G_UnkA3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkA3::A,
            1 => G_UnkA3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkA3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkA3 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional)] x: [Own<3>; 1] },
}
impl Subj for M_UnkA3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkA3".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <[Own<3>; 1] as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkA3::A => D::Var(0, vec![]),
            M_UnkA3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkA3::A,
            1 => M_UnkA3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkA3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoR3 {
    A,
    B(#[cbor(rename = 303)] Own<3>, u8),
}
impl Subj for E_TwoR3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoR3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoR3::A => D::Var(0, vec![]),
            E_TwoR3::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoR3::A,
            1 => E_TwoR3::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoR3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecR3 {
    A,
    B { #[cbor(rename = 303)] x: Own<3>, y: u8 },
}
impl Subj for E_RecR3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecR3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecR3::A => D::Var(0, vec![]),
            E_RecR3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecR3::A,
            1 => E_RecR3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecR3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_RecR3 {
    A,
    B { #[cbor(rename = 303)] x: Own<3>, y: u8 },
}
impl Subj for U_RecR3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_RecR3".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_RecR3::A => D::Var(0, vec![]),
            U_RecR3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_RecR3::A,
            1 => U_RecR3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_RecR3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_RecR3 {
    A,
    B { #[cbor(rename = 303)] x: Own<3>, y: u8 },
}
impl Subj for D_RecR3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_RecR3".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_RecR3::A => D::Var(0, vec![]),
            D_RecR3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_RecR3::A,
            1 => D_RecR3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_RecR3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecR3 {
    A,
    B { #[cbor(rename = 303)] x: Own<3>, y: u8 },
}
impl Subj for G_RecR3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecR3".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecR3::A => D::Var(0, vec![]),
            G_RecR3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecR3::A,
            1 => G_RecR3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecR3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecR3 {
    A,
    #[cbor(missing)] B { #[cbor(rename = 303)] x: Own<3>, y: u8 },
}
impl Subj for M_RecR3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecR3".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecR3::A => D::Var(0, vec![]),
            M_RecR3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecR3::A,
            1 => M_RecR3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecR3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrR3 {
    A,
    #[cbor(as_array)] B { #[cbor(rename = 303)] x: Own<3>, y: u8 },
}
impl Subj for E_ArrR3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrR3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(M::U(303), <Own<3> as Subj>::ty()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrR3::A => D::Var(0, vec![]),
            E_ArrR3::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrR3::A,
            1 => E_ArrR3::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrR3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkR3 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(rename = 303)] x: Own<3> },
}
impl Subj for E_UnkR3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkR3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(M::U(303), <Own<3> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkR3::A => D::Var(0, vec![]),
            E_UnkR3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkR3::A,
            1 => E_UnkR3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkR3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkR3 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(rename = 303)] x: Own<3> },
}
impl Subj for G_UnkR3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkR3".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(M::U(303), <Own<3> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkR3::A => D::Var(0, vec![]),
            G_UnkR3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkR3::A,
            1 => G_UnkR3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkR3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkR3 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(rename = 303)] x: Own<3> },
}
impl Subj for M_UnkR3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkR3".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(M::U(303), <Own<3> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkR3::A => D::Var(0, vec![]),
            M_UnkR3::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkR3::A,
            1 => M_UnkR3::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkR3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoN1 {
    A,
    B(#[cbor(optional)] u8, u8),
}
impl Subj for E_TwoN1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoN1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()).opt(), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoN1::A => D::Var(0, vec![]),
            E_TwoN1::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoN1::A,
            1 => E_TwoN1::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoN1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecN1 {
    A,
    B { #[cbor(optional)] x: u8, y: u8 },
}
impl Subj for E_RecN1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecN1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecN1::A => D::Var(0, vec![]),
            E_RecN1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecN1::A,
            1 => E_RecN1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecN1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecN1 {
    A,
    B { #[cbor(optional)] x: u8, y: u8 },
}
impl Subj for G_RecN1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecN1".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecN1::A => D::Var(0, vec![]),
            G_RecN1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecN1::A,
            1 => G_RecN1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecN1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecN1 {
    A,
    #[cbor(missing)] B { #[cbor(optional)] x: u8, y: u8 },
}
impl Subj for M_RecN1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecN1".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecN1::A => D::Var(0, vec![]),
            M_RecN1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecN1::A,
            1 => M_RecN1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecN1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrN1 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: u8, y: u8 },
}
impl Subj for E_ArrN1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrN1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrN1::A => D::Var(0, vec![]),
            E_ArrN1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrN1::A,
            1 => E_ArrN1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrN1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_ArrN1 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: u8, y: u8 },
}
impl Subj for U_ArrN1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_ArrN1".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_ArrN1::A => D::Var(0, vec![]),
            U_ArrN1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_ArrN1::A,
            1 => U_ArrN1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_ArrN1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_ArrN1 {
    A,
    #[cbor(as_array)] B { #[cbor(optional)] x: u8, y: u8 },
}
impl Subj for D_ArrN1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_ArrN1".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt(), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_ArrN1::A => D::Var(0, vec![]),
            D_ArrN1::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_ArrN1::A,
            1 => D_ArrN1::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_ArrN1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkN1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: u8 },
}
impl Subj for E_UnkN1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkN1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkN1::A => D::Var(0, vec![]),
            E_UnkN1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkN1::A,
            1 => E_UnkN1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkN1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkN1 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(optional)] x: u8 },
}
impl Subj for G_UnkN1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkN1".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkN1::A => D::Var(0, vec![]),
            G_UnkN1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkN1::A,
            1 => G_UnkN1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkN1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkN1 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(optional)] x: u8 },
}
impl Subj for M_UnkN1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkN1".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <u8 as Subj>::ty()).opt()] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkN1::A => D::Var(0, vec![]),
            M_UnkN1::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkN1::A,
            1 => M_UnkN1::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkN1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_NewN2 {
    A,
    B(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] Own<2>),
}
impl Subj for E_NewN2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_NewN2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<2> as Subj>::ty()).coded(num())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_NewN2::A => D::Var(0, vec![]),
            E_NewN2::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_NewN2::A,
            1 => E_NewN2::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_NewN2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_TwoN2 {
    A,
    B(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] Own<2>, u8),
}
impl Subj for E_TwoN2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_TwoN2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<2> as Subj>::ty()).coded(num()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_TwoN2::A => D::Var(0, vec![]),
            E_TwoN2::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_TwoN2::A,
            1 => E_TwoN2::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_TwoN2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_TwoN2 {
    A,
    B(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] Own<2>, u8),
}
impl Subj for U_TwoN2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_TwoN2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<2> as Subj>::ty()).coded(num()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_TwoN2::A => D::Var(0, vec![]),
            U_TwoN2::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_TwoN2::A,
            1 => U_TwoN2::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_TwoN2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_TwoN2 {
    A,
    B(#[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] Own<2>, u8),
}
impl Subj for D_TwoN2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_TwoN2".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<2> as Subj>::ty()).coded(num()), fld(NULL, <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_TwoN2::A => D::Var(0, vec![]),
            D_TwoN2::B(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_TwoN2::A,
            1 => D_TwoN2::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_TwoN2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_RecN2 {
    A,
    B { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] x: Own<2>, y: u8 },
}
impl Subj for E_RecN2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_RecN2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).coded(num()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_RecN2::A => D::Var(0, vec![]),
            E_RecN2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_RecN2::A,
            1 => E_RecN2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_RecN2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_RecN2 {
    A,
    B { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] x: Own<2>, y: u8 },
}
impl Subj for G_RecN2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_RecN2".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).coded(num()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_RecN2::A => D::Var(0, vec![]),
            G_RecN2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_RecN2::A,
            1 => G_RecN2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_RecN2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_RecN2 {
    A,
    #[cbor(missing)] B { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] x: Own<2>, y: u8 },
}
impl Subj for M_RecN2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_RecN2".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).coded(num()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_RecN2::A => D::Var(0, vec![]),
            M_RecN2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_RecN2::A,
            1 => M_RecN2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_RecN2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_ArrN2 {
    A,
    #[cbor(as_array)] B { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] x: Own<2>, y: u8 },
}
impl Subj for E_ArrN2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_ArrN2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: true, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).coded(num()), fld(t("y"), <u8 as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_ArrN2::A => D::Var(0, vec![]),
            E_ArrN2::B { x: x0, y: x1 } => D::Var(1, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_ArrN2::A,
            1 => E_ArrN2::B { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_ArrN2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum E_UnkN2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] x: Own<2> },
}
impl Subj for E_UnkN2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "E_UnkN2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).coded(num())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            E_UnkN2::A => D::Var(0, vec![]),
            E_UnkN2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => E_UnkN2::A,
            1 => E_UnkN2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for E_UnkN2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum U_UnkN2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] x: Own<2> },
}
impl Subj for U_UnkN2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "U_UnkN2".into(), tag: None, untagged: true, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).coded(num())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            U_UnkN2::A => D::Var(0, vec![]),
            U_UnkN2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => U_UnkN2::A,
            1 => U_UnkN2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for U_UnkN2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(with_default)]
pub enum D_UnkN2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] x: Own<2> },
}
impl Subj for D_UnkN2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "D_UnkN2".into(), tag: None, untagged: false, default: Some(D::Var(0, vec![])), overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).coded(num())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            D_UnkN2::A => D::Var(0, vec![]),
            D_UnkN2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => D_UnkN2::A,
            1 => D_UnkN2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for D_UnkN2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum G_UnkN2 {
    A,
    #[cbor(allow_unknown)] B { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] x: Own<2> },
}
impl Subj for G_UnkN2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G_UnkN2".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: false, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).coded(num())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G_UnkN2::A => D::Var(0, vec![]),
            G_UnkN2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G_UnkN2::A,
            1 => G_UnkN2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for G_UnkN2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 1)]
pub enum M_UnkN2 {
    A,
    #[cbor(allow_unknown, missing)] B { #[cbor(serialize_with = "ser_num", deserialize_with = "de_num")] x: Own<2> },
}
impl Subj for M_UnkN2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "M_UnkN2".into(), tag: Some(M::U(1)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: true, missing: true, fields: vec![fld(t("x"), <Own<2> as Subj>::ty()).coded(num())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            M_UnkN2::A => D::Var(0, vec![]),
            M_UnkN2::B { x: x0 } => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => M_UnkN2::A,
            1 => M_UnkN2::B { x: Subj::from_d(&v[0]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for M_UnkN2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum GN {
    A(Own<4>),
    B(S_P1),
    C,
}
impl Subj for GN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "GN".into(), tag: Some(t("t")), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<4> as Subj>::ty())] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <S_P1 as Subj>::ty())] },
            VariantTy { key: t("C"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            GN::A(x0) => D::Var(0, vec![x0.to_d()]),
            GN::B(x0) => D::Var(1, vec![x0.to_d()]),
            GN::C => D::Var(2, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => GN::A(Subj::from_d(&v[0])),
            1 => GN::B(Subj::from_d(&v[0])),
            2 => GN::C,
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for GN {
    fn default() -> Self {
        Self::from_d(&D::Var(2, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(tag = 7)]
pub enum GM {
    A,
    #[cbor(missing)] B(Own<4>),
}
impl Subj for GM {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "GM".into(), tag: Some(M::U(7)), untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: true, fields: vec![fld(NULL, <Own<4> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            GM::A => D::Var(0, vec![]),
            GM::B(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => GM::A,
            1 => GM::B(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for GM {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum EK {
    A,
    #[cbor(skip)] B(Own<1>),
    #[cbor(rename = 3)] C(Own<1>),
}
impl Subj for EK {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "EK".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: true, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<1> as Subj>::ty())] },
            VariantTy { key: M::U(3), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<1> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            EK::A => D::Var(0, vec![]),
            EK::B(x0) => D::Var(1, vec![x0.to_d()]),
            EK::C(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => EK::A,
            1 => EK::B(Subj::from_d(&v[0])),
            2 => EK::C(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for EK {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum EM0 {
    A,
    B(Own<0>),
    #[cbor(embed)] C(Own<0>),
}
impl Subj for EM0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "EM0".into(), tag: None, untagged: false, default: None, overlap: true, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<0> as Subj>::ty())] },
            VariantTy { key: t("C"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<0> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            EM0::A => D::Var(0, vec![]),
            EM0::B(x0) => D::Var(1, vec![x0.to_d()]),
            EM0::C(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => EM0::A,
            1 => EM0::B(Subj::from_d(&v[0])),
            2 => EM0::C(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for EM0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum EM2 {
    A,
    B(Own<0>),
    #[cbor(embed)] C(Own<2>),
}
impl Subj for EM2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "EM2".into(), tag: None, untagged: false, default: None, overlap: true, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<0> as Subj>::ty())] },
            VariantTy { key: t("C"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<2> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            EM2::A => D::Var(0, vec![]),
            EM2::B(x0) => D::Var(1, vec![x0.to_d()]),
            EM2::C(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => EM2::A,
            1 => EM2::B(Subj::from_d(&v[0])),
            2 => EM2::C(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for EM2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub enum EM4 {
    A,
    B(Own<0>),
    #[cbor(embed)] C(Own<4>),
}
impl Subj for EM4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "EM4".into(), tag: None, untagged: false, default: None, overlap: true, variants: vec![
            VariantTy { key: t("A"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<0> as Subj>::ty())] },
            VariantTy { key: t("C"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: true, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Own<4> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            EM4::A => D::Var(0, vec![]),
            EM4::B(x0) => D::Var(1, vec![x0.to_d()]),
            EM4::C(x0) => D::Var(2, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => EM4::A,
            1 => EM4::B(Subj::from_d(&v[0])),
            2 => EM4::C(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for EM4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct HE0 { pub a: E_NewP1, #[cbor(optional)] pub b: Option<E_NewP1>, pub c: Vec<E_NewP1> }
impl Subj for HE0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <E_NewP1 as Subj>::ty()), fld(t("b"), <Option<E_NewP1> as Subj>::ty()).opt(), fld(t("c"), <Vec<E_NewP1> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "HE0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let HE0 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        HE0 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
#[derive(Encode, Decode)]
pub enum EE0 {
    N,
    A(E_NewP1),
    B(E_NewP1, Vec<E_NewP1>),
}
impl Subj for EE0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "EE0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("N"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("A"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <E_NewP1 as Subj>::ty())] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <E_NewP1 as Subj>::ty()), fld(NULL, <Vec<E_NewP1> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            EE0::N => D::Var(0, vec![]),
            EE0::A(x0) => D::Var(1, vec![x0.to_d()]),
            EE0::B(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => EE0::N,
            1 => EE0::A(Subj::from_d(&v[0])),
            2 => EE0::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for EE0 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct HE1 { pub a: E_RecO2, #[cbor(optional)] pub b: Option<E_RecO2>, pub c: Vec<E_RecO2> }
impl Subj for HE1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <E_RecO2 as Subj>::ty()), fld(t("b"), <Option<E_RecO2> as Subj>::ty()).opt(), fld(t("c"), <Vec<E_RecO2> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "HE1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let HE1 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        HE1 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
#[derive(Encode, Decode)]
pub enum EE1 {
    N,
    A(E_RecO2),
    B(E_RecO2, Vec<E_RecO2>),
}
impl Subj for EE1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "EE1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("N"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("A"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <E_RecO2 as Subj>::ty())] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <E_RecO2 as Subj>::ty()), fld(NULL, <Vec<E_RecO2> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            EE1::N => D::Var(0, vec![]),
            EE1::A(x0) => D::Var(1, vec![x0.to_d()]),
            EE1::B(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => EE1::N,
            1 => EE1::A(Subj::from_d(&v[0])),
            2 => EE1::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for EE1 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct HE2 { pub a: G_RecO1, #[cbor(optional)] pub b: Option<G_RecO1>, pub c: Vec<G_RecO1> }
impl Subj for HE2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <G_RecO1 as Subj>::ty()), fld(t("b"), <Option<G_RecO1> as Subj>::ty()).opt(), fld(t("c"), <Vec<G_RecO1> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "HE2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let HE2 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        HE2 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
#[derive(Encode, Decode)]
pub enum EE2 {
    N,
    A(G_RecO1),
    B(G_RecO1, Vec<G_RecO1>),
}
impl Subj for EE2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "EE2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("N"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("A"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <G_RecO1 as Subj>::ty())] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <G_RecO1 as Subj>::ty()), fld(NULL, <Vec<G_RecO1> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            EE2::N => D::Var(0, vec![]),
            EE2::A(x0) => D::Var(1, vec![x0.to_d()]),
            EE2::B(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => EE2::N,
            1 => EE2::A(Subj::from_d(&v[0])),
            2 => EE2::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for EE2 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct HE3 { pub a: GN, #[cbor(optional)] pub b: Option<GN>, pub c: Vec<GN> }
impl Subj for HE3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <GN as Subj>::ty()), fld(t("b"), <Option<GN> as Subj>::ty()).opt(), fld(t("c"), <Vec<GN> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "HE3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let HE3 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        HE3 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
#[derive(Encode, Decode)]
pub enum EE3 {
    N,
    A(GN),
    B(GN, Vec<GN>),
}
impl Subj for EE3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "EE3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("N"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("A"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <GN as Subj>::ty())] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <GN as Subj>::ty()), fld(NULL, <Vec<GN> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            EE3::N => D::Var(0, vec![]),
            EE3::A(x0) => D::Var(1, vec![x0.to_d()]),
            EE3::B(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => EE3::N,
            1 => EE3::A(Subj::from_d(&v[0])),
            2 => EE3::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for EE3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct HE4 { pub a: EM4, #[cbor(optional)] pub b: Option<EM4>, pub c: Vec<EM4> }
impl Subj for HE4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <EM4 as Subj>::ty()), fld(t("b"), <Option<EM4> as Subj>::ty()).opt(), fld(t("c"), <Vec<EM4> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "HE4".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let HE4 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        HE4 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
#[derive(Encode, Decode)]
pub enum EE4 {
    N,
    A(EM4),
    B(EM4, Vec<EM4>),
}
impl Subj for EE4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "EE4".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("N"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("A"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EM4 as Subj>::ty())] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EM4 as Subj>::ty()), fld(NULL, <Vec<EM4> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            EE4::N => D::Var(0, vec![]),
            EE4::A(x0) => D::Var(1, vec![x0.to_d()]),
            EE4::B(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => EE4::N,
            1 => EE4::A(Subj::from_d(&v[0])),
            2 => EE4::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for EE4 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct HE5 { pub a: E_TwoP3, #[cbor(optional)] pub b: Option<E_TwoP3>, pub c: Vec<E_TwoP3> }
impl Subj for HE5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <E_TwoP3 as Subj>::ty()), fld(t("b"), <Option<E_TwoP3> as Subj>::ty()).opt(), fld(t("c"), <Vec<E_TwoP3> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "HE5".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let HE5 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        HE5 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
#[derive(Encode, Decode)]
pub enum EE5 {
    N,
    A(E_TwoP3),
    B(E_TwoP3, Vec<E_TwoP3>),
}
impl Subj for EE5 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "EE5".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("N"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("A"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <E_TwoP3 as Subj>::ty())] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <E_TwoP3 as Subj>::ty()), fld(NULL, <Vec<E_TwoP3> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            EE5::N => D::Var(0, vec![]),
            EE5::A(x0) => D::Var(1, vec![x0.to_d()]),
            EE5::B(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => EE5::N,
            1 => EE5::A(Subj::from_d(&v[0])),
            2 => EE5::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for EE5 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct HE6 { pub a: D_NewP0, #[cbor(optional)] pub b: Option<D_NewP0>, pub c: Vec<D_NewP0> }
impl Subj for HE6 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), <D_NewP0 as Subj>::ty()), fld(t("b"), <Option<D_NewP0> as Subj>::ty()).opt(), fld(t("c"), <Vec<D_NewP0> as Subj>::ty())];
        let default = None;
        Ty::Struct(Arc::new(StructTy { name: "HE6".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let HE6 { a: x0, b: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        HE6 { a: Subj::from_d(&v[0]), b: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
#[derive(Encode, Decode)]
pub enum EE6 {
    N,
    A(D_NewP0),
    B(D_NewP0, Vec<D_NewP0>),
}
impl Subj for EE6 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "EE6".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("N"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("A"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <D_NewP0 as Subj>::ty())] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <D_NewP0 as Subj>::ty()), fld(NULL, <Vec<D_NewP0> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            EE6::N => D::Var(0, vec![]),
            EE6::A(x0) => D::Var(1, vec![x0.to_d()]),
            EE6::B(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => EE6::N,
            1 => EE6::A(Subj::from_d(&v[0])),
            2 => EE6::B(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for EE6 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Encode, Decode)]
pub struct G<T> where T: Subj + Encode + Decode + Default { pub b: T, #[cbor(optional)] pub a: T, pub c: Vec<T> }
impl<T> Subj for G<T> where T: Subj + Encode + Decode + Default {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("b"), <T as Subj>::ty()), fld(t("a"), <T as Subj>::ty()).opt(), fld(t("c"), <Vec<T> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "G".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let G { b: x0, a: x1, c: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        G { b: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), c: Subj::from_d(&v[2]) }
    }
}
impl<T> Default for G<T> where T: Subj + Encode + Decode + Default {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub struct GA<T>(pub T, pub Option<T>, pub [T; 2]) where T: Subj + Encode + Decode + Default;
impl<T> Subj for GA<T> where T: Subj + Encode + Decode + Default {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <T as Subj>::ty()), fld(NULL, <Option<T> as Subj>::ty()), fld(NULL, <[T; 2] as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "GA".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let GA(x0, x1, x2) = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        GA(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2]))
    }
}
impl<T> Default for GA<T> where T: Subj + Encode + Decode + Default {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
#[cbor(transparent)]
pub struct GW<T>(pub T) where T: Subj + Encode + Decode + Default;
impl<T> Subj for GW<T> where T: Subj + Encode + Decode + Default {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <T as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "GW".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let GW(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        GW(Subj::from_d(&v[0]))
    }
}
impl<T> Default for GW<T> where T: Subj + Encode + Decode + Default {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Encode, Decode)]
pub enum GE<T> where T: Subj + Encode + Decode + Default {
    Z,
    A(T),
    B { t: T, #[cbor(optional)] o: T },
    C(T, Vec<T>),
}
impl<T> Subj for GE<T> where T: Subj + Encode + Decode + Default {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "GE".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Z"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("A"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <T as Subj>::ty())] },
            VariantTy { key: t("B"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("t"), <T as Subj>::ty()), fld(t("o"), <T as Subj>::ty()).opt()] },
            VariantTy { key: t("C"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <T as Subj>::ty()), fld(NULL, <Vec<T> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            GE::Z => D::Var(0, vec![]),
            GE::A(x0) => D::Var(1, vec![x0.to_d()]),
            GE::B { t: x0, o: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            GE::C(x0, x1) => D::Var(3, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => GE::Z,
            1 => GE::A(Subj::from_d(&v[0])),
            2 => GE::B { t: Subj::from_d(&v[0]), o: Subj::from_d(&v[1]) },
            3 => GE::C(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            _ => panic!("{d:?}"),
        }
    }
}
impl<T> Default for GE<T> where T: Subj + Encode + Decode + Default {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}

pub fn types() -> Vec<Ops> {
    let mut v = vec![];
    types0(&mut v);
    types1(&mut v);
    types2(&mut v);
    types3(&mut v);
    types4(&mut v);
    types5(&mut v);
    types6(&mut v);
    types7(&mut v);
    types8(&mut v);
    types9(&mut v);
    types10(&mut v);
    types11(&mut v);
    types12(&mut v);
    types13(&mut v);
    types14(&mut v);
    types15(&mut v);
    types16(&mut v);
    types17(&mut v);
    types18(&mut v);
    types19(&mut v);
    types20(&mut v);
    types21(&mut v);
    types22(&mut v);
    types23(&mut v);
    types24(&mut v);
    types25(&mut v);
    types26(&mut v);
    types27(&mut v);
    types28(&mut v);
    types29(&mut v);
    types30(&mut v);
    types31(&mut v);
    types32(&mut v);
    types33(&mut v);
    types34(&mut v);
    types35(&mut v);
    types36(&mut v);
    types37(&mut v);
    types38(&mut v);
    types39(&mut v);
    types40(&mut v);
    types41(&mut v);
    types42(&mut v);
    types43(&mut v);
    types44(&mut v);
    types45(&mut v);
    types46(&mut v);
    types47(&mut v);
    types48(&mut v);
    types49(&mut v);
    types50(&mut v);
    v
}
fn types0(v: &mut Vec<Ops>) {
    v.push(marked!(Own<0>, ops::<Own<0>>("Own<0>")));
    v.push(marked!(Option<Own<0>>, ops::<Option<Own<0>>>("Option<Own<0>>")));
    v.push(marked!(Vec<Own<0>>, ops::<Vec<Own<0>>>("Vec<Own<0>>")));
    v.push(marked!([Own<0>; 0], ops::<[Own<0>; 0]>("[Own<0>; 0]")));
    v.push(marked!([Own<0>; 1], ops::<[Own<0>; 1]>("[Own<0>; 1]")));
    v.push(marked!([Own<0>; 3], ops::<[Own<0>; 3]>("[Own<0>; 3]")));
    v.push(marked!((Own<0>,), ops::<(Own<0>,)>("(Own<0>,)")));
    v.push(marked!((Own<0>, Own<0>, Own<0>), ops::<(Own<0>, Own<0>, Own<0>)>("(Own<0>, Own<0>, Own<0>)")));
    v.push(marked!(BTreeMap<String, Own<0>>, ops::<BTreeMap<String, Own<0>>>("BTreeMap<String, Own<0>>")));
    v.push(marked!(BTreeMap<Own<0>, u8>, ops::<BTreeMap<Own<0>, u8>>("BTreeMap<Own<0>, u8>")));
    v.push(marked!(BTreeMap<Own<0>, Own<0>>, ops::<BTreeMap<Own<0>, Own<0>>>("BTreeMap<Own<0>, Own<0>>")));
    v.push(marked!(HashMap<String, Own<0>>, ops::<HashMap<String, Own<0>>>("HashMap<String, Own<0>>")));
    v.push(marked!(HashMap<Own<0>, Own<0>>, ops::<HashMap<Own<0>, Own<0>>>("HashMap<Own<0>, Own<0>>")));
    v.push(marked!(BTreeSet<Own<0>>, ops::<BTreeSet<Own<0>>>("BTreeSet<Own<0>>")));
    v.push(marked!(HashSet<Own<0>>, ops::<HashSet<Own<0>>>("HashSet<Own<0>>")));
    v.push(marked!(Option<Vec<Own<0>>>, ops::<Option<Vec<Own<0>>>>("Option<Vec<Own<0>>>")));
    v.push(marked!(Vec<Option<Own<0>>>, ops::<Vec<Option<Own<0>>>>("Vec<Option<Own<0>>>")));
    v.push(marked!(Option<Option<Own<0>>>, ops::<Option<Option<Own<0>>>>("Option<Option<Own<0>>>")));
    v.push(marked!(Vec<Vec<Own<0>>>, ops::<Vec<Vec<Own<0>>>>("Vec<Vec<Own<0>>>")));
    v.push(marked!(Option<(Own<0>, u8)>, ops::<Option<(Own<0>, u8)>>("Option<(Own<0>, u8)>")));
    v.push(marked!(Vec<(Own<0>, Own<0>)>, ops::<Vec<(Own<0>, Own<0>)>>("Vec<(Own<0>, Own<0>)>")));
    v.push(marked!([[Own<0>; 1]; 2], ops::<[[Own<0>; 1]; 2]>("[[Own<0>; 1]; 2]")));
    v.push(marked!(BTreeMap<u8, Vec<Own<0>>>, ops::<BTreeMap<u8, Vec<Own<0>>>>("BTreeMap<u8, Vec<Own<0>>>")));
    v.push(marked!(BTreeMap<(Own<0>, u8), u8>, ops::<BTreeMap<(Own<0>, u8), u8>>("BTreeMap<(Own<0>, u8), u8>")));
    v.push(marked!((Option<Own<0>>, Vec<Own<0>>), ops::<(Option<Own<0>>, Vec<Own<0>>)>("(Option<Own<0>>, Vec<Own<0>>)")));
    v.push(marked!(((), Own<0>), ops::<((), Own<0>)>("((), Own<0>)")));
    v.push(marked!((Own<0>, Value), ops::<(Own<0>, Value)>("(Own<0>, Value)")));
    v.push(marked!(BTreeSet<Vec<Own<0>>>, ops::<BTreeSet<Vec<Own<0>>>>("BTreeSet<Vec<Own<0>>>")));
    v.push(marked!(HashSet<[Own<0>; 2]>, ops::<HashSet<[Own<0>; 2]>>("HashSet<[Own<0>; 2]>")));
    v.push(marked!(HashSet<(u8, Own<0>)>, ops::<HashSet<(u8, Own<0>)>>("HashSet<(u8, Own<0>)>")));
    v.push(marked!(BTreeSet<Option<Own<0>>>, ops::<BTreeSet<Option<Own<0>>>>("BTreeSet<Option<Own<0>>>")));
    v.push(marked!(Vec<HashSet<Own<0>>>, ops::<Vec<HashSet<Own<0>>>>("Vec<HashSet<Own<0>>>")));
    v.push(marked!(HashMap<u8, BTreeMap<u8, Own<0>>>, ops::<HashMap<u8, BTreeMap<u8, Own<0>>>>("HashMap<u8, BTreeMap<u8, Own<0>>>")));
    v.push(marked!((Own<0>, Own<1>), ops::<(Own<0>, Own<1>)>("(Own<0>, Own<1>)")));
    v.push(marked!(BTreeMap<Own<0>, Own<1>>, ops::<BTreeMap<Own<0>, Own<1>>>("BTreeMap<Own<0>, Own<1>>")));
    v.push(marked!((Own<0>, Own<2>), ops::<(Own<0>, Own<2>)>("(Own<0>, Own<2>)")));
    v.push(marked!(BTreeMap<Own<0>, Own<2>>, ops::<BTreeMap<Own<0>, Own<2>>>("BTreeMap<Own<0>, Own<2>>")));
    v.push(marked!((Own<0>, Own<3>), ops::<(Own<0>, Own<3>)>("(Own<0>, Own<3>)")));
    v.push(marked!(BTreeMap<Own<0>, Own<3>>, ops::<BTreeMap<Own<0>, Own<3>>>("BTreeMap<Own<0>, Own<3>>")));
    v.push(marked!((Own<0>, Own<4>), ops::<(Own<0>, Own<4>)>("(Own<0>, Own<4>)")));
    v.push(marked!(BTreeMap<Own<0>, Own<4>>, ops::<BTreeMap<Own<0>, Own<4>>>("BTreeMap<Own<0>, Own<4>>")));
    v.push(marked!(Own<1>, ops::<Own<1>>("Own<1>")));
    v.push(marked!(Option<Own<1>>, ops::<Option<Own<1>>>("Option<Own<1>>")));
    v.push(marked!(Vec<Own<1>>, ops::<Vec<Own<1>>>("Vec<Own<1>>")));
    v.push(marked!([Own<1>; 0], ops::<[Own<1>; 0]>("[Own<1>; 0]")));
    v.push(marked!([Own<1>; 1], ops::<[Own<1>; 1]>("[Own<1>; 1]")));
    v.push(marked!([Own<1>; 3], ops::<[Own<1>; 3]>("[Own<1>; 3]")));
    v.push(marked!((Own<1>,), ops::<(Own<1>,)>("(Own<1>,)")));
    v.push(marked!((Own<1>, Own<1>, Own<1>), ops::<(Own<1>, Own<1>, Own<1>)>("(Own<1>, Own<1>, Own<1>)")));
    v.push(marked!(BTreeMap<String, Own<1>>, ops::<BTreeMap<String, Own<1>>>("BTreeMap<String, Own<1>>")));
}
fn types1(v: &mut Vec<Ops>) {
    v.push(marked!(BTreeMap<Own<1>, u8>, ops::<BTreeMap<Own<1>, u8>>("BTreeMap<Own<1>, u8>")));
    v.push(marked!(BTreeMap<Own<1>, Own<1>>, ops::<BTreeMap<Own<1>, Own<1>>>("BTreeMap<Own<1>, Own<1>>")));
    v.push(marked!(HashMap<String, Own<1>>, ops::<HashMap<String, Own<1>>>("HashMap<String, Own<1>>")));
    v.push(marked!(HashMap<Own<1>, Own<1>>, ops::<HashMap<Own<1>, Own<1>>>("HashMap<Own<1>, Own<1>>")));
    v.push(marked!(BTreeSet<Own<1>>, ops::<BTreeSet<Own<1>>>("BTreeSet<Own<1>>")));
    v.push(marked!(HashSet<Own<1>>, ops::<HashSet<Own<1>>>("HashSet<Own<1>>")));
    v.push(marked!(Option<Vec<Own<1>>>, ops::<Option<Vec<Own<1>>>>("Option<Vec<Own<1>>>")));
    v.push(marked!(Vec<Option<Own<1>>>, ops::<Vec<Option<Own<1>>>>("Vec<Option<Own<1>>>")));
    v.push(marked!(Option<Option<Own<1>>>, ops::<Option<Option<Own<1>>>>("Option<Option<Own<1>>>")));
    v.push(marked!(Vec<Vec<Own<1>>>, ops::<Vec<Vec<Own<1>>>>("Vec<Vec<Own<1>>>")));
    v.push(marked!(Option<(Own<1>, u8)>, ops::<Option<(Own<1>, u8)>>("Option<(Own<1>, u8)>")));
    v.push(marked!(Vec<(Own<1>, Own<1>)>, ops::<Vec<(Own<1>, Own<1>)>>("Vec<(Own<1>, Own<1>)>")));
    v.push(marked!([[Own<1>; 1]; 2], ops::<[[Own<1>; 1]; 2]>("[[Own<1>; 1]; 2]")));
    v.push(marked!(BTreeMap<u8, Vec<Own<1>>>, ops::<BTreeMap<u8, Vec<Own<1>>>>("BTreeMap<u8, Vec<Own<1>>>")));
    v.push(marked!(BTreeMap<(Own<1>, u8), u8>, ops::<BTreeMap<(Own<1>, u8), u8>>("BTreeMap<(Own<1>, u8), u8>")));
    v.push(marked!((Option<Own<1>>, Vec<Own<1>>), ops::<(Option<Own<1>>, Vec<Own<1>>)>("(Option<Own<1>>, Vec<Own<1>>)")));
    v.push(marked!(((), Own<1>), ops::<((), Own<1>)>("((), Own<1>)")));
    v.push(marked!((Own<1>, Value), ops::<(Own<1>, Value)>("(Own<1>, Value)")));
    v.push(marked!(BTreeSet<Vec<Own<1>>>, ops::<BTreeSet<Vec<Own<1>>>>("BTreeSet<Vec<Own<1>>>")));
    v.push(marked!(HashSet<[Own<1>; 2]>, ops::<HashSet<[Own<1>; 2]>>("HashSet<[Own<1>; 2]>")));
    v.push(marked!(HashSet<(u8, Own<1>)>, ops::<HashSet<(u8, Own<1>)>>("HashSet<(u8, Own<1>)>")));
    v.push(marked!(BTreeSet<Option<Own<1>>>, ops::<BTreeSet<Option<Own<1>>>>("BTreeSet<Option<Own<1>>>")));
    v.push(marked!(Vec<HashSet<Own<1>>>, ops::<Vec<HashSet<Own<1>>>>("Vec<HashSet<Own<1>>>")));
    v.push(marked!(HashMap<u8, BTreeMap<u8, Own<1>>>, ops::<HashMap<u8, BTreeMap<u8, Own<1>>>>("HashMap<u8, BTreeMap<u8, Own<1>>>")));
    v.push(marked!((Own<1>, Own<0>), ops::<(Own<1>, Own<0>)>("(Own<1>, Own<0>)")));
    v.push(marked!(BTreeMap<Own<1>, Own<0>>, ops::<BTreeMap<Own<1>, Own<0>>>("BTreeMap<Own<1>, Own<0>>")));
    v.push(marked!((Own<1>, Own<2>), ops::<(Own<1>, Own<2>)>("(Own<1>, Own<2>)")));
    v.push(marked!(BTreeMap<Own<1>, Own<2>>, ops::<BTreeMap<Own<1>, Own<2>>>("BTreeMap<Own<1>, Own<2>>")));
    v.push(marked!((Own<1>, Own<3>), ops::<(Own<1>, Own<3>)>("(Own<1>, Own<3>)")));
    v.push(marked!(BTreeMap<Own<1>, Own<3>>, ops::<BTreeMap<Own<1>, Own<3>>>("BTreeMap<Own<1>, Own<3>>")));
    v.push(marked!((Own<1>, Own<4>), ops::<(Own<1>, Own<4>)>("(Own<1>, Own<4>)")));
    v.push(marked!(BTreeMap<Own<1>, Own<4>>, ops::<BTreeMap<Own<1>, Own<4>>>("BTreeMap<Own<1>, Own<4>>")));
    v.push(marked!(Own<2>, ops::<Own<2>>("Own<2>")));
    v.push(marked!(Option<Own<2>>, ops::<Option<Own<2>>>("Option<Own<2>>")));
    v.push(marked!(Vec<Own<2>>, ops::<Vec<Own<2>>>("Vec<Own<2>>")));
    v.push(marked!([Own<2>; 0], ops::<[Own<2>; 0]>("[Own<2>; 0]")));
    v.push(marked!([Own<2>; 1], ops::<[Own<2>; 1]>("[Own<2>; 1]")));
    v.push(marked!([Own<2>; 3], ops::<[Own<2>; 3]>("[Own<2>; 3]")));
    v.push(marked!((Own<2>,), ops::<(Own<2>,)>("(Own<2>,)")));
    v.push(marked!((Own<2>, Own<2>, Own<2>), ops::<(Own<2>, Own<2>, Own<2>)>("(Own<2>, Own<2>, Own<2>)")));
    v.push(marked!(BTreeMap<String, Own<2>>, ops::<BTreeMap<String, Own<2>>>("BTreeMap<String, Own<2>>")));
    v.push(marked!(BTreeMap<Own<2>, u8>, ops::<BTreeMap<Own<2>, u8>>("BTreeMap<Own<2>, u8>")));
    v.push(marked!(BTreeMap<Own<2>, Own<2>>, ops::<BTreeMap<Own<2>, Own<2>>>("BTreeMap<Own<2>, Own<2>>")));
    v.push(marked!(HashMap<String, Own<2>>, ops::<HashMap<String, Own<2>>>("HashMap<String, Own<2>>")));
    v.push(marked!(HashMap<Own<2>, Own<2>>, ops::<HashMap<Own<2>, Own<2>>>("HashMap<Own<2>, Own<2>>")));
    v.push(marked!(BTreeSet<Own<2>>, ops::<BTreeSet<Own<2>>>("BTreeSet<Own<2>>")));
    v.push(marked!(HashSet<Own<2>>, ops::<HashSet<Own<2>>>("HashSet<Own<2>>")));
    v.push(marked!(Option<Vec<Own<2>>>, ops::<Option<Vec<Own<2>>>>("Option<Vec<Own<2>>>")));
    v.push(marked!(Vec<Option<Own<2>>>, ops::<Vec<Option<Own<2>>>>("Vec<Option<Own<2>>>")));
    v.push(marked!(Option<Option<Own<2>>>, ops::<Option<Option<Own<2>>>>("Option<Option<Own<2>>>")));
}
fn types2(v: &mut Vec<Ops>) {
    v.push(marked!(Vec<Vec<Own<2>>>, ops::<Vec<Vec<Own<2>>>>("Vec<Vec<Own<2>>>")));
    v.push(marked!(Option<(Own<2>, u8)>, ops::<Option<(Own<2>, u8)>>("Option<(Own<2>, u8)>")));
    v.push(marked!(Vec<(Own<2>, Own<2>)>, ops::<Vec<(Own<2>, Own<2>)>>("Vec<(Own<2>, Own<2>)>")));
    v.push(marked!([[Own<2>; 1]; 2], ops::<[[Own<2>; 1]; 2]>("[[Own<2>; 1]; 2]")));
    v.push(marked!(BTreeMap<u8, Vec<Own<2>>>, ops::<BTreeMap<u8, Vec<Own<2>>>>("BTreeMap<u8, Vec<Own<2>>>")));
    v.push(marked!(BTreeMap<(Own<2>, u8), u8>, ops::<BTreeMap<(Own<2>, u8), u8>>("BTreeMap<(Own<2>, u8), u8>")));
    v.push(marked!((Option<Own<2>>, Vec<Own<2>>), ops::<(Option<Own<2>>, Vec<Own<2>>)>("(Option<Own<2>>, Vec<Own<2>>)")));
    v.push(marked!(((), Own<2>), ops::<((), Own<2>)>("((), Own<2>)")));
    v.push(marked!((Own<2>, Value), ops::<(Own<2>, Value)>("(Own<2>, Value)")));
    v.push(marked!(BTreeSet<Vec<Own<2>>>, ops::<BTreeSet<Vec<Own<2>>>>("BTreeSet<Vec<Own<2>>>")));
    v.push(marked!(HashSet<[Own<2>; 2]>, ops::<HashSet<[Own<2>; 2]>>("HashSet<[Own<2>; 2]>")));
    v.push(marked!(HashSet<(u8, Own<2>)>, ops::<HashSet<(u8, Own<2>)>>("HashSet<(u8, Own<2>)>")));
    v.push(marked!(BTreeSet<Option<Own<2>>>, ops::<BTreeSet<Option<Own<2>>>>("BTreeSet<Option<Own<2>>>")));
    v.push(marked!(Vec<HashSet<Own<2>>>, ops::<Vec<HashSet<Own<2>>>>("Vec<HashSet<Own<2>>>")));
    v.push(marked!(HashMap<u8, BTreeMap<u8, Own<2>>>, ops::<HashMap<u8, BTreeMap<u8, Own<2>>>>("HashMap<u8, BTreeMap<u8, Own<2>>>")));
    v.push(marked!((Own<2>, Own<0>), ops::<(Own<2>, Own<0>)>("(Own<2>, Own<0>)")));
    v.push(marked!(BTreeMap<Own<2>, Own<0>>, ops::<BTreeMap<Own<2>, Own<0>>>("BTreeMap<Own<2>, Own<0>>")));
    v.push(marked!((Own<2>, Own<1>), ops::<(Own<2>, Own<1>)>("(Own<2>, Own<1>)")));
    v.push(marked!(BTreeMap<Own<2>, Own<1>>, ops::<BTreeMap<Own<2>, Own<1>>>("BTreeMap<Own<2>, Own<1>>")));
    v.push(marked!((Own<2>, Own<3>), ops::<(Own<2>, Own<3>)>("(Own<2>, Own<3>)")));
    v.push(marked!(BTreeMap<Own<2>, Own<3>>, ops::<BTreeMap<Own<2>, Own<3>>>("BTreeMap<Own<2>, Own<3>>")));
    v.push(marked!((Own<2>, Own<4>), ops::<(Own<2>, Own<4>)>("(Own<2>, Own<4>)")));
    v.push(marked!(BTreeMap<Own<2>, Own<4>>, ops::<BTreeMap<Own<2>, Own<4>>>("BTreeMap<Own<2>, Own<4>>")));
    v.push(marked!(Own<3>, ops::<Own<3>>("Own<3>")));
    v.push(marked!(Option<Own<3>>, ops::<Option<Own<3>>>("Option<Own<3>>")));
    v.push(marked!(Vec<Own<3>>, ops::<Vec<Own<3>>>("Vec<Own<3>>")));
    v.push(marked!([Own<3>; 0], ops::<[Own<3>; 0]>("[Own<3>; 0]")));
    v.push(marked!([Own<3>; 1], ops::<[Own<3>; 1]>("[Own<3>; 1]")));
    v.push(marked!([Own<3>; 3], ops::<[Own<3>; 3]>("[Own<3>; 3]")));
    v.push(marked!((Own<3>,), ops::<(Own<3>,)>("(Own<3>,)")));
    v.push(marked!((Own<3>, Own<3>, Own<3>), ops::<(Own<3>, Own<3>, Own<3>)>("(Own<3>, Own<3>, Own<3>)")));
    v.push(marked!(BTreeMap<String, Own<3>>, ops::<BTreeMap<String, Own<3>>>("BTreeMap<String, Own<3>>")));
    v.push(marked!(BTreeMap<Own<3>, u8>, ops::<BTreeMap<Own<3>, u8>>("BTreeMap<Own<3>, u8>")));
    v.push(marked!(BTreeMap<Own<3>, Own<3>>, ops::<BTreeMap<Own<3>, Own<3>>>("BTreeMap<Own<3>, Own<3>>")));
    v.push(marked!(HashMap<String, Own<3>>, ops::<HashMap<String, Own<3>>>("HashMap<String, Own<3>>")));
    v.push(marked!(HashMap<Own<3>, Own<3>>, ops::<HashMap<Own<3>, Own<3>>>("HashMap<Own<3>, Own<3>>")));
    v.push(marked!(BTreeSet<Own<3>>, ops::<BTreeSet<Own<3>>>("BTreeSet<Own<3>>")));
    v.push(marked!(HashSet<Own<3>>, ops::<HashSet<Own<3>>>("HashSet<Own<3>>")));
    v.push(marked!(Option<Vec<Own<3>>>, ops::<Option<Vec<Own<3>>>>("Option<Vec<Own<3>>>")));
    v.push(marked!(Vec<Option<Own<3>>>, ops::<Vec<Option<Own<3>>>>("Vec<Option<Own<3>>>")));
    v.push(marked!(Option<Option<Own<3>>>, ops::<Option<Option<Own<3>>>>("Option<Option<Own<3>>>")));
    v.push(marked!(Vec<Vec<Own<3>>>, ops::<Vec<Vec<Own<3>>>>("Vec<Vec<Own<3>>>")));
    v.push(marked!(Option<(Own<3>, u8)>, ops::<Option<(Own<3>, u8)>>("Option<(Own<3>, u8)>")));
    v.push(marked!(Vec<(Own<3>, Own<3>)>, ops::<Vec<(Own<3>, Own<3>)>>("Vec<(Own<3>, Own<3>)>")));
    v.push(marked!([[Own<3>; 1]; 2], ops::<[[Own<3>; 1]; 2]>("[[Own<3>; 1]; 2]")));
    v.push(marked!(BTreeMap<u8, Vec<Own<3>>>, ops::<BTreeMap<u8, Vec<Own<3>>>>("BTreeMap<u8, Vec<Own<3>>>")));
    v.push(marked!(BTreeMap<(Own<3>, u8), u8>, ops::<BTreeMap<(Own<3>, u8), u8>>("BTreeMap<(Own<3>, u8), u8>")));
    v.push(marked!((Option<Own<3>>, Vec<Own<3>>), ops::<(Option<Own<3>>, Vec<Own<3>>)>("(Option<Own<3>>, Vec<Own<3>>)")));
    v.push(marked!(((), Own<3>), ops::<((), Own<3>)>("((), Own<3>)")));
    v.push(marked!((Own<3>, Value), ops::<(Own<3>, Value)>("(Own<3>, Value)")));
}
fn types3(v: &mut Vec<Ops>) {
    v.push(marked!(BTreeSet<Vec<Own<3>>>, ops::<BTreeSet<Vec<Own<3>>>>("BTreeSet<Vec<Own<3>>>")));
    v.push(marked!(HashSet<[Own<3>; 2]>, ops::<HashSet<[Own<3>; 2]>>("HashSet<[Own<3>; 2]>")));
    v.push(marked!(HashSet<(u8, Own<3>)>, ops::<HashSet<(u8, Own<3>)>>("HashSet<(u8, Own<3>)>")));
    v.push(marked!(BTreeSet<Option<Own<3>>>, ops::<BTreeSet<Option<Own<3>>>>("BTreeSet<Option<Own<3>>>")));
    v.push(marked!(Vec<HashSet<Own<3>>>, ops::<Vec<HashSet<Own<3>>>>("Vec<HashSet<Own<3>>>")));
    v.push(marked!(HashMap<u8, BTreeMap<u8, Own<3>>>, ops::<HashMap<u8, BTreeMap<u8, Own<3>>>>("HashMap<u8, BTreeMap<u8, Own<3>>>")));
    v.push(marked!((Own<3>, Own<0>), ops::<(Own<3>, Own<0>)>("(Own<3>, Own<0>)")));
    v.push(marked!(BTreeMap<Own<3>, Own<0>>, ops::<BTreeMap<Own<3>, Own<0>>>("BTreeMap<Own<3>, Own<0>>")));
    v.push(marked!((Own<3>, Own<1>), ops::<(Own<3>, Own<1>)>("(Own<3>, Own<1>)")));
    v.push(marked!(BTreeMap<Own<3>, Own<1>>, ops::<BTreeMap<Own<3>, Own<1>>>("BTreeMap<Own<3>, Own<1>>")));
    v.push(marked!((Own<3>, Own<2>), ops::<(Own<3>, Own<2>)>("(Own<3>, Own<2>)")));
    v.push(marked!(BTreeMap<Own<3>, Own<2>>, ops::<BTreeMap<Own<3>, Own<2>>>("BTreeMap<Own<3>, Own<2>>")));
    v.push(marked!((Own<3>, Own<4>), ops::<(Own<3>, Own<4>)>("(Own<3>, Own<4>)")));
    v.push(marked!(BTreeMap<Own<3>, Own<4>>, ops::<BTreeMap<Own<3>, Own<4>>>("BTreeMap<Own<3>, Own<4>>")));
    v.push(marked!(Own<4>, ops::<Own<4>>("Own<4>")));
    v.push(marked!(Option<Own<4>>, ops::<Option<Own<4>>>("Option<Own<4>>")));
    v.push(marked!(Vec<Own<4>>, ops::<Vec<Own<4>>>("Vec<Own<4>>")));
    v.push(marked!([Own<4>; 0], ops::<[Own<4>; 0]>("[Own<4>; 0]")));
    v.push(marked!([Own<4>; 1], ops::<[Own<4>; 1]>("[Own<4>; 1]")));
    v.push(marked!([Own<4>; 3], ops::<[Own<4>; 3]>("[Own<4>; 3]")));
    v.push(marked!((Own<4>,), ops::<(Own<4>,)>("(Own<4>,)")));
    v.push(marked!((Own<4>, Own<4>, Own<4>), ops::<(Own<4>, Own<4>, Own<4>)>("(Own<4>, Own<4>, Own<4>)")));
    v.push(marked!(BTreeMap<String, Own<4>>, ops::<BTreeMap<String, Own<4>>>("BTreeMap<String, Own<4>>")));
    v.push(marked!(BTreeMap<Own<4>, u8>, ops::<BTreeMap<Own<4>, u8>>("BTreeMap<Own<4>, u8>")));
    v.push(marked!(BTreeMap<Own<4>, Own<4>>, ops::<BTreeMap<Own<4>, Own<4>>>("BTreeMap<Own<4>, Own<4>>")));
    v.push(marked!(HashMap<String, Own<4>>, ops::<HashMap<String, Own<4>>>("HashMap<String, Own<4>>")));
    v.push(marked!(HashMap<Own<4>, Own<4>>, ops::<HashMap<Own<4>, Own<4>>>("HashMap<Own<4>, Own<4>>")));
    v.push(marked!(BTreeSet<Own<4>>, ops::<BTreeSet<Own<4>>>("BTreeSet<Own<4>>")));
    v.push(marked!(HashSet<Own<4>>, ops::<HashSet<Own<4>>>("HashSet<Own<4>>")));
    v.push(marked!(Option<Vec<Own<4>>>, ops::<Option<Vec<Own<4>>>>("Option<Vec<Own<4>>>")));
    v.push(marked!(Vec<Option<Own<4>>>, ops::<Vec<Option<Own<4>>>>("Vec<Option<Own<4>>>")));
    v.push(marked!(Option<Option<Own<4>>>, ops::<Option<Option<Own<4>>>>("Option<Option<Own<4>>>")));
    v.push(marked!(Vec<Vec<Own<4>>>, ops::<Vec<Vec<Own<4>>>>("Vec<Vec<Own<4>>>")));
    v.push(marked!(Option<(Own<4>, u8)>, ops::<Option<(Own<4>, u8)>>("Option<(Own<4>, u8)>")));
    v.push(marked!(Vec<(Own<4>, Own<4>)>, ops::<Vec<(Own<4>, Own<4>)>>("Vec<(Own<4>, Own<4>)>")));
    v.push(marked!([[Own<4>; 1]; 2], ops::<[[Own<4>; 1]; 2]>("[[Own<4>; 1]; 2]")));
    v.push(marked!(BTreeMap<u8, Vec<Own<4>>>, ops::<BTreeMap<u8, Vec<Own<4>>>>("BTreeMap<u8, Vec<Own<4>>>")));
    v.push(marked!(BTreeMap<(Own<4>, u8), u8>, ops::<BTreeMap<(Own<4>, u8), u8>>("BTreeMap<(Own<4>, u8), u8>")));
    v.push(marked!((Option<Own<4>>, Vec<Own<4>>), ops::<(Option<Own<4>>, Vec<Own<4>>)>("(Option<Own<4>>, Vec<Own<4>>)")));
    v.push(marked!(((), Own<4>), ops::<((), Own<4>)>("((), Own<4>)")));
    v.push(marked!((Own<4>, Value), ops::<(Own<4>, Value)>("(Own<4>, Value)")));
    v.push(marked!(BTreeSet<Vec<Own<4>>>, ops::<BTreeSet<Vec<Own<4>>>>("BTreeSet<Vec<Own<4>>>")));
    v.push(marked!(HashSet<[Own<4>; 2]>, ops::<HashSet<[Own<4>; 2]>>("HashSet<[Own<4>; 2]>")));
    v.push(marked!(HashSet<(u8, Own<4>)>, ops::<HashSet<(u8, Own<4>)>>("HashSet<(u8, Own<4>)>")));
    v.push(marked!(BTreeSet<Option<Own<4>>>, ops::<BTreeSet<Option<Own<4>>>>("BTreeSet<Option<Own<4>>>")));
    v.push(marked!(Vec<HashSet<Own<4>>>, ops::<Vec<HashSet<Own<4>>>>("Vec<HashSet<Own<4>>>")));
    v.push(marked!(HashMap<u8, BTreeMap<u8, Own<4>>>, ops::<HashMap<u8, BTreeMap<u8, Own<4>>>>("HashMap<u8, BTreeMap<u8, Own<4>>>")));
    v.push(marked!((Own<4>, Own<0>), ops::<(Own<4>, Own<0>)>("(Own<4>, Own<0>)")));
    v.push(marked!(BTreeMap<Own<4>, Own<0>>, ops::<BTreeMap<Own<4>, Own<0>>>("BTreeMap<Own<4>, Own<0>>")));
    v.push(marked!((Own<4>, Own<1>), ops::<(Own<4>, Own<1>)>("(Own<4>, Own<1>)")));
}
fn types4(v: &mut Vec<Ops>) {
    v.push(marked!(BTreeMap<Own<4>, Own<1>>, ops::<BTreeMap<Own<4>, Own<1>>>("BTreeMap<Own<4>, Own<1>>")));
    v.push(marked!((Own<4>, Own<2>), ops::<(Own<4>, Own<2>)>("(Own<4>, Own<2>)")));
    v.push(marked!(BTreeMap<Own<4>, Own<2>>, ops::<BTreeMap<Own<4>, Own<2>>>("BTreeMap<Own<4>, Own<2>>")));
    v.push(marked!((Own<4>, Own<3>), ops::<(Own<4>, Own<3>)>("(Own<4>, Own<3>)")));
    v.push(marked!(BTreeMap<Own<4>, Own<3>>, ops::<BTreeMap<Own<4>, Own<3>>>("BTreeMap<Own<4>, Own<3>>")));
    v.push(marked!((Own<0>, Own<3>, Own<2>, Own<1>), ops::<(Own<0>, Own<3>, Own<2>, Own<1>)>("(Own<0>, Own<3>, Own<2>, Own<1>)")));
    v.push(marked!((Own<1>, Own<0>, Own<3>, Own<2>, Own<1>), ops::<(Own<1>, Own<0>, Own<3>, Own<2>, Own<1>)>("(Own<1>, Own<0>, Own<3>, Own<2>, Own<1>)")));
    v.push(marked!((Own<2>, Own<1>, Own<0>, Own<3>, Own<2>, Own<1>), ops::<(Own<2>, Own<1>, Own<0>, Own<3>, Own<2>, Own<1>)>("(Own<2>, Own<1>, Own<0>, Own<3>, Own<2>, Own<1>)")));
    v.push(marked!((Own<3>, Own<2>, Own<1>, Own<0>, Own<3>, Own<2>, Own<1>), ops::<(Own<3>, Own<2>, Own<1>, Own<0>, Own<3>, Own<2>, Own<1>)>("(Own<3>, Own<2>, Own<1>, Own<0>, Own<3>, Own<2>, Own<1>)")));
    v.push(marked!((Own<0>, Own<3>, Own<2>, Own<1>, Own<0>, Own<3>, Own<2>, Own<1>), ops::<(Own<0>, Own<3>, Own<2>, Own<1>, Own<0>, Own<3>, Own<2>, Own<1>)>("(Own<0>, Own<3>, Own<2>, Own<1>, Own<0>, Own<3>, Own<2>, Own<1>)")));
    v.push(marked!((Own<1>, Own<0>, Own<3>, Own<2>, Own<1>, Own<0>, Own<3>, Own<2>, Own<1>), ops::<(Own<1>, Own<0>, Own<3>, Own<2>, Own<1>, Own<0>, Own<3>, Own<2>, Own<1>)>("(Own<1>, Own<0>, Own<3>, Own<2>, Own<1>, Own<0>, Own<3>, Own<2>, Own<1>)")));
    v.push(marked!((Own<2>, Own<1>, Own<0>, Own<3>, Own<2>, Own<1>, Own<0>, Own<3>, Own<2>, Own<1>), ops::<(Own<2>, Own<1>, Own<0>, Own<3>, Own<2>, Own<1>, Own<0>, Own<3>, Own<2>, Own<1>)>("(Own<2>, Own<1>, Own<0>, Own<3>, Own<2>, Own<1>, Own<0>, Own<3>, Own<2>, Own<1>)")));
    v.push(marked!(S_P0, ops::<S_P0>("S_P0")));
    v.push(marked!(N_P0, ops::<N_P0>("N_P0")));
    v.push(marked!(Y_P0, ops::<Y_P0>("Y_P0")));
    v.push(marked!(T_P0, ops::<T_P0>("T_P0")));
    v.push(marked!(TT_P0, ops::<TT_P0>("TT_P0")));
    v.push(marked!(S_O0, ops::<S_O0>("S_O0")));
    v.push(marked!(N_O0, ops::<N_O0>("N_O0")));
    v.push(marked!(Y_O0, ops::<Y_O0>("Y_O0")));
    v.push(marked!(T_O0, ops::<T_O0>("T_O0")));
    v.push(marked!(TT_O0, ops::<TT_O0>("TT_O0")));
    v.push(marked!(S_L0, ops::<S_L0>("S_L0")));
    v.push(marked!(N_L0, ops::<N_L0>("N_L0")));
    v.push(marked!(Y_L0, ops::<Y_L0>("Y_L0")));
    v.push(marked!(T_L0, ops::<T_L0>("T_L0")));
    v.push(marked!(TT_L0, ops::<TT_L0>("TT_L0")));
    v.push(marked!(S_P1, ops::<S_P1>("S_P1")));
    v.push(marked!(N_P1, ops::<N_P1>("N_P1")));
    v.push(marked!(Y_P1, ops::<Y_P1>("Y_P1")));
    v.push(marked!(T_P1, ops::<T_P1>("T_P1")));
    v.push(marked!(TT_P1, ops::<TT_P1>("TT_P1")));
    v.push(marked!(S_O1, ops::<S_O1>("S_O1")));
    v.push(marked!(N_O1, ops::<N_O1>("N_O1")));
    v.push(marked!(Y_O1, ops::<Y_O1>("Y_O1")));
    v.push(marked!(T_O1, ops::<T_O1>("T_O1")));
    v.push(marked!(TT_O1, ops::<TT_O1>("TT_O1")));
    v.push(marked!(S_L1, ops::<S_L1>("S_L1")));
    v.push(marked!(N_L1, ops::<N_L1>("N_L1")));
    v.push(marked!(Y_L1, ops::<Y_L1>("Y_L1")));
    v.push(marked!(T_L1, ops::<T_L1>("T_L1")));
    v.push(marked!(TT_L1, ops::<TT_L1>("TT_L1")));
    v.push(marked!(S_P2, ops::<S_P2>("S_P2")));
    v.push(marked!(N_P2, ops::<N_P2>("N_P2")));
    v.push(marked!(Y_P2, ops::<Y_P2>("Y_P2")));
    v.push(marked!(T_P2, ops::<T_P2>("T_P2")));
    v.push(marked!(TT_P2, ops::<TT_P2>("TT_P2")));
    v.push(marked!(S_O2, ops::<S_O2>("S_O2")));
    v.push(marked!(N_O2, ops::<N_O2>("N_O2")));
    v.push(marked!(Y_O2, ops::<Y_O2>("Y_O2")));
}
fn types5(v: &mut Vec<Ops>) {
    v.push(marked!(T_O2, ops::<T_O2>("T_O2")));
    v.push(marked!(TT_O2, ops::<TT_O2>("TT_O2")));
    v.push(marked!(S_L2, ops::<S_L2>("S_L2")));
    v.push(marked!(N_L2, ops::<N_L2>("N_L2")));
    v.push(marked!(Y_L2, ops::<Y_L2>("Y_L2")));
    v.push(marked!(T_L2, ops::<T_L2>("T_L2")));
    v.push(marked!(TT_L2, ops::<TT_L2>("TT_L2")));
    v.push(marked!(S_P3, ops::<S_P3>("S_P3")));
    v.push(marked!(N_P3, ops::<N_P3>("N_P3")));
    v.push(marked!(Y_P3, ops::<Y_P3>("Y_P3")));
    v.push(marked!(T_P3, ops::<T_P3>("T_P3")));
    v.push(marked!(TT_P3, ops::<TT_P3>("TT_P3")));
    v.push(marked!(S_O3, ops::<S_O3>("S_O3")));
    v.push(marked!(N_O3, ops::<N_O3>("N_O3")));
    v.push(marked!(Y_O3, ops::<Y_O3>("Y_O3")));
    v.push(marked!(T_O3, ops::<T_O3>("T_O3")));
    v.push(marked!(TT_O3, ops::<TT_O3>("TT_O3")));
    v.push(marked!(S_L3, ops::<S_L3>("S_L3")));
    v.push(marked!(N_L3, ops::<N_L3>("N_L3")));
    v.push(marked!(Y_L3, ops::<Y_L3>("Y_L3")));
    v.push(marked!(T_L3, ops::<T_L3>("T_L3")));
    v.push(marked!(TT_L3, ops::<TT_L3>("TT_L3")));
    v.push(marked!(S_P4, ops::<S_P4>("S_P4")));
    v.push(marked!(N_P4, ops::<N_P4>("N_P4")));
    v.push(marked!(Y_P4, ops::<Y_P4>("Y_P4")));
    v.push(marked!(T_P4, ops::<T_P4>("T_P4")));
    v.push(marked!(TT_P4, ops::<TT_P4>("TT_P4")));
    v.push(marked!(S_O4, ops::<S_O4>("S_O4")));
    v.push(marked!(N_O4, ops::<N_O4>("N_O4")));
    v.push(marked!(Y_O4, ops::<Y_O4>("Y_O4")));
    v.push(marked!(T_O4, ops::<T_O4>("T_O4")));
    v.push(marked!(TT_O4, ops::<TT_O4>("TT_O4")));
    v.push(marked!(S_L4, ops::<S_L4>("S_L4")));
    v.push(marked!(N_L4, ops::<N_L4>("N_L4")));
    v.push(marked!(Y_L4, ops::<Y_L4>("Y_L4")));
    v.push(marked!(T_L4, ops::<T_L4>("T_L4")));
    v.push(marked!(TT_L4, ops::<TT_L4>("TT_L4")));
    v.push(marked!(S_I0, ops::<S_I0>("S_I0")));
    v.push(marked!(N_I0, ops::<N_I0>("N_I0")));
    v.push(marked!(S_S0, ops::<S_S0>("S_S0")));
    v.push(marked!(N_S0, ops::<N_S0>("N_S0")));
    v.push(marked!(Y_S0, ops::<Y_S0>("Y_S0")));
    v.push(marked!(T_S0, ops::<T_S0>("T_S0")));
    v.push(marked!(TT_S0, ops::<TT_S0>("TT_S0")));
    v.push(marked!(S_W0, ops::<S_W0>("S_W0")));
    v.push(marked!(N_W0, ops::<N_W0>("N_W0")));
    v.push(marked!(Y_W0, ops::<Y_W0>("Y_W0")));
    v.push(marked!(T_W0, ops::<T_W0>("T_W0")));
    v.push(marked!(TT_W0, ops::<TT_W0>("TT_W0")));
    v.push(marked!(TC_W0, ops::<TC_W0>("TC_W0")));
}
fn types6(v: &mut Vec<Ops>) {
    v.push(marked!(S_X0, ops::<S_X0>("S_X0")));
    v.push(marked!(N_X0, ops::<N_X0>("N_X0")));
    v.push(marked!(Y_X0, ops::<Y_X0>("Y_X0")));
    v.push(marked!(T_X0, ops::<T_X0>("T_X0")));
    v.push(marked!(TT_X0, ops::<TT_X0>("TT_X0")));
    v.push(marked!(TC_X0, ops::<TC_X0>("TC_X0")));
    v.push(marked!(S_T0, ops::<S_T0>("S_T0")));
    v.push(marked!(N_T0, ops::<N_T0>("N_T0")));
    v.push(marked!(Y_T0, ops::<Y_T0>("Y_T0")));
    v.push(marked!(T_T0, ops::<T_T0>("T_T0")));
    v.push(marked!(TT_T0, ops::<TT_T0>("TT_T0")));
    v.push(marked!(S_U0, ops::<S_U0>("S_U0")));
    v.push(marked!(N_U0, ops::<N_U0>("N_U0")));
    v.push(marked!(Y_U0, ops::<Y_U0>("Y_U0")));
    v.push(marked!(T_U0, ops::<T_U0>("T_U0")));
    v.push(marked!(TT_U0, ops::<TT_U0>("TT_U0")));
    v.push(marked!(S_V0, ops::<S_V0>("S_V0")));
    v.push(marked!(N_V0, ops::<N_V0>("N_V0")));
    v.push(marked!(Y_V0, ops::<Y_V0>("Y_V0")));
    v.push(marked!(T_V0, ops::<T_V0>("T_V0")));
    v.push(marked!(TT_V0, ops::<TT_V0>("TT_V0")));
    v.push(marked!(S_A0, ops::<S_A0>("S_A0")));
    v.push(marked!(N_A0, ops::<N_A0>("N_A0")));
    v.push(marked!(Y_A0, ops::<Y_A0>("Y_A0")));
    v.push(marked!(T_A0, ops::<T_A0>("T_A0")));
    v.push(marked!(TT_A0, ops::<TT_A0>("TT_A0")));
    v.push(marked!(S_R0, ops::<S_R0>("S_R0")));
    v.push(marked!(N_R0, ops::<N_R0>("N_R0")));
    v.push(marked!(Y_R0, ops::<Y_R0>("Y_R0")));
    v.push(marked!(T_R0, ops::<T_R0>("T_R0")));
    v.push(marked!(TT_R0, ops::<TT_R0>("TT_R0")));
    v.push(marked!(S_I1, ops::<S_I1>("S_I1")));
    v.push(marked!(N_I1, ops::<N_I1>("N_I1")));
    v.push(marked!(S_S1, ops::<S_S1>("S_S1")));
    v.push(marked!(N_S1, ops::<N_S1>("N_S1")));
    v.push(marked!(Y_S1, ops::<Y_S1>("Y_S1")));
    v.push(marked!(T_S1, ops::<T_S1>("T_S1")));
    v.push(marked!(TT_S1, ops::<TT_S1>("TT_S1")));
    v.push(marked!(S_W1, ops::<S_W1>("S_W1")));
    v.push(marked!(N_W1, ops::<N_W1>("N_W1")));
    v.push(marked!(Y_W1, ops::<Y_W1>("Y_W1")));
    v.push(marked!(T_W1, ops::<T_W1>("T_W1")));
    v.push(marked!(TT_W1, ops::<TT_W1>("TT_W1")));
    v.push(marked!(TC_W1, ops::<TC_W1>("TC_W1")));
    v.push(marked!(S_X1, ops::<S_X1>("S_X1")));
    v.push(marked!(N_X1, ops::<N_X1>("N_X1")));
    v.push(marked!(Y_X1, ops::<Y_X1>("Y_X1")));
    v.push(marked!(T_X1, ops::<T_X1>("T_X1")));
    v.push(marked!(TT_X1, ops::<TT_X1>("TT_X1")));
    v.push(marked!(TC_X1, ops::<TC_X1>("TC_X1")));
}
fn types7(v: &mut Vec<Ops>) {
    v.push(marked!(S_T1, ops::<S_T1>("S_T1")));
    v.push(marked!(N_T1, ops::<N_T1>("N_T1")));
    v.push(marked!(Y_T1, ops::<Y_T1>("Y_T1")));
    v.push(marked!(T_T1, ops::<T_T1>("T_T1")));
    v.push(marked!(TT_T1, ops::<TT_T1>("TT_T1")));
    v.push(marked!(S_U1, ops::<S_U1>("S_U1")));
    v.push(marked!(N_U1, ops::<N_U1>("N_U1")));
    v.push(marked!(Y_U1, ops::<Y_U1>("Y_U1")));
    v.push(marked!(T_U1, ops::<T_U1>("T_U1")));
    v.push(marked!(TT_U1, ops::<TT_U1>("TT_U1")));
    v.push(marked!(S_V1, ops::<S_V1>("S_V1")));
    v.push(marked!(N_V1, ops::<N_V1>("N_V1")));
    v.push(marked!(Y_V1, ops::<Y_V1>("Y_V1")));
    v.push(marked!(T_V1, ops::<T_V1>("T_V1")));
    v.push(marked!(TT_V1, ops::<TT_V1>("TT_V1")));
    v.push(marked!(S_A1, ops::<S_A1>("S_A1")));
    v.push(marked!(N_A1, ops::<N_A1>("N_A1")));
    v.push(marked!(Y_A1, ops::<Y_A1>("Y_A1")));
    v.push(marked!(T_A1, ops::<T_A1>("T_A1")));
    v.push(marked!(TT_A1, ops::<TT_A1>("TT_A1")));
    v.push(marked!(S_R1, ops::<S_R1>("S_R1")));
    v.push(marked!(N_R1, ops::<N_R1>("N_R1")));
    v.push(marked!(Y_R1, ops::<Y_R1>("Y_R1")));
    v.push(marked!(T_R1, ops::<T_R1>("T_R1")));
    v.push(marked!(TT_R1, ops::<TT_R1>("TT_R1")));
    v.push(marked!(S_I2, ops::<S_I2>("S_I2")));
    v.push(marked!(N_I2, ops::<N_I2>("N_I2")));
    v.push(marked!(S_S2, ops::<S_S2>("S_S2")));
    v.push(marked!(N_S2, ops::<N_S2>("N_S2")));
    v.push(marked!(Y_S2, ops::<Y_S2>("Y_S2")));
    v.push(marked!(T_S2, ops::<T_S2>("T_S2")));
    v.push(marked!(TT_S2, ops::<TT_S2>("TT_S2")));
    v.push(marked!(S_W2, ops::<S_W2>("S_W2")));
    v.push(marked!(N_W2, ops::<N_W2>("N_W2")));
    v.push(marked!(Y_W2, ops::<Y_W2>("Y_W2")));
    v.push(marked!(T_W2, ops::<T_W2>("T_W2")));
    v.push(marked!(TT_W2, ops::<TT_W2>("TT_W2")));
    v.push(marked!(TC_W2, ops::<TC_W2>("TC_W2")));
    v.push(marked!(S_X2, ops::<S_X2>("S_X2")));
    v.push(marked!(N_X2, ops::<N_X2>("N_X2")));
    v.push(marked!(Y_X2, ops::<Y_X2>("Y_X2")));
    v.push(marked!(T_X2, ops::<T_X2>("T_X2")));
    v.push(marked!(TT_X2, ops::<TT_X2>("TT_X2")));
    v.push(marked!(TC_X2, ops::<TC_X2>("TC_X2")));
    v.push(marked!(S_T2, ops::<S_T2>("S_T2")));
    v.push(marked!(N_T2, ops::<N_T2>("N_T2")));
    v.push(marked!(Y_T2, ops::<Y_T2>("Y_T2")));
    v.push(marked!(T_T2, ops::<T_T2>("T_T2")));
    v.push(marked!(TT_T2, ops::<TT_T2>("TT_T2")));
    v.push(marked!(S_U2, ops::<S_U2>("S_U2")));
}
fn types8(v: &mut Vec<Ops>) {
    v.push(marked!(N_U2, ops::<N_U2>("N_U2")));
    v.push(marked!(Y_U2, ops::<Y_U2>("Y_U2")));
    v.push(marked!(T_U2, ops::<T_U2>("T_U2")));
    v.push(marked!(TT_U2, ops::<TT_U2>("TT_U2")));
    v.push(marked!(S_V2, ops::<S_V2>("S_V2")));
    v.push(marked!(N_V2, ops::<N_V2>("N_V2")));
    v.push(marked!(Y_V2, ops::<Y_V2>("Y_V2")));
    v.push(marked!(T_V2, ops::<T_V2>("T_V2")));
    v.push(marked!(TT_V2, ops::<TT_V2>("TT_V2")));
    v.push(marked!(S_A2, ops::<S_A2>("S_A2")));
    v.push(marked!(N_A2, ops::<N_A2>("N_A2")));
    v.push(marked!(Y_A2, ops::<Y_A2>("Y_A2")));
    v.push(marked!(T_A2, ops::<T_A2>("T_A2")));
    v.push(marked!(TT_A2, ops::<TT_A2>("TT_A2")));
    v.push(marked!(S_R2, ops::<S_R2>("S_R2")));
    v.push(marked!(N_R2, ops::<N_R2>("N_R2")));
    v.push(marked!(Y_R2, ops::<Y_R2>("Y_R2")));
    v.push(marked!(T_R2, ops::<T_R2>("T_R2")));
    v.push(marked!(TT_R2, ops::<TT_R2>("TT_R2")));
    v.push(marked!(S_I3, ops::<S_I3>("S_I3")));
    v.push(marked!(N_I3, ops::<N_I3>("N_I3")));
    v.push(marked!(S_S3, ops::<S_S3>("S_S3")));
    v.push(marked!(N_S3, ops::<N_S3>("N_S3")));
    v.push(marked!(Y_S3, ops::<Y_S3>("Y_S3")));
    v.push(marked!(T_S3, ops::<T_S3>("T_S3")));
    v.push(marked!(TT_S3, ops::<TT_S3>("TT_S3")));
    v.push(marked!(S_W3, ops::<S_W3>("S_W3")));
    v.push(marked!(N_W3, ops::<N_W3>("N_W3")));
    v.push(marked!(Y_W3, ops::<Y_W3>("Y_W3")));
    v.push(marked!(T_W3, ops::<T_W3>("T_W3")));
    v.push(marked!(TT_W3, ops::<TT_W3>("TT_W3")));
    v.push(marked!(TC_W3, ops::<TC_W3>("TC_W3")));
    v.push(marked!(S_X3, ops::<S_X3>("S_X3")));
    v.push(marked!(N_X3, ops::<N_X3>("N_X3")));
    v.push(marked!(Y_X3, ops::<Y_X3>("Y_X3")));
    v.push(marked!(T_X3, ops::<T_X3>("T_X3")));
    v.push(marked!(TT_X3, ops::<TT_X3>("TT_X3")));
    v.push(marked!(TC_X3, ops::<TC_X3>("TC_X3")));
    v.push(marked!(S_T3, ops::<S_T3>("S_T3")));
    v.push(marked!(N_T3, ops::<N_T3>("N_T3")));
    v.push(marked!(Y_T3, ops::<Y_T3>("Y_T3")));
    v.push(marked!(T_T3, ops::<T_T3>("T_T3")));
    v.push(marked!(TT_T3, ops::<TT_T3>("TT_T3")));
    v.push(marked!(S_U3, ops::<S_U3>("S_U3")));
    v.push(marked!(N_U3, ops::<N_U3>("N_U3")));
    v.push(marked!(Y_U3, ops::<Y_U3>("Y_U3")));
    v.push(marked!(T_U3, ops::<T_U3>("T_U3")));
    v.push(marked!(TT_U3, ops::<TT_U3>("TT_U3")));
    v.push(marked!(S_V3, ops::<S_V3>("S_V3")));
    v.push(marked!(N_V3, ops::<N_V3>("N_V3")));
}
fn types9(v: &mut Vec<Ops>) {
    v.push(marked!(Y_V3, ops::<Y_V3>("Y_V3")));
    v.push(marked!(T_V3, ops::<T_V3>("T_V3")));
    v.push(marked!(TT_V3, ops::<TT_V3>("TT_V3")));
    v.push(marked!(S_A3, ops::<S_A3>("S_A3")));
    v.push(marked!(N_A3, ops::<N_A3>("N_A3")));
    v.push(marked!(Y_A3, ops::<Y_A3>("Y_A3")));
    v.push(marked!(T_A3, ops::<T_A3>("T_A3")));
    v.push(marked!(TT_A3, ops::<TT_A3>("TT_A3")));
    v.push(marked!(S_R3, ops::<S_R3>("S_R3")));
    v.push(marked!(N_R3, ops::<N_R3>("N_R3")));
    v.push(marked!(Y_R3, ops::<Y_R3>("Y_R3")));
    v.push(marked!(T_R3, ops::<T_R3>("T_R3")));
    v.push(marked!(TT_R3, ops::<TT_R3>("TT_R3")));
    v.push(marked!(S_N1, ops::<S_N1>("S_N1")));
    v.push(marked!(N_N1, ops::<N_N1>("N_N1")));
    v.push(marked!(Y_N1, ops::<Y_N1>("Y_N1")));
    v.push(marked!(T_N1, ops::<T_N1>("T_N1")));
    v.push(marked!(TT_N1, ops::<TT_N1>("TT_N1")));
    v.push(marked!(S_N2, ops::<S_N2>("S_N2")));
    v.push(marked!(N_N2, ops::<N_N2>("N_N2")));
    v.push(marked!(Y_N2, ops::<Y_N2>("Y_N2")));
    v.push(marked!(T_N2, ops::<T_N2>("T_N2")));
    v.push(marked!(TT_N2, ops::<TT_N2>("TT_N2")));
    v.push(marked!(TC_N2, ops::<TC_N2>("TC_N2")));
    v.push(marked!(S_P0_P0, ops::<S_P0_P0>("S_P0_P0")));
    v.push(marked!(L_P0_P0, ops::<L_P0_P0>("L_P0_P0")));
    v.push(marked!(T_P0_P0, ops::<T_P0_P0>("T_P0_P0")));
    v.push(marked!(Y_P0_P0, ops::<Y_P0_P0>("Y_P0_P0")));
    v.push(marked!(S_P0_P1, ops::<S_P0_P1>("S_P0_P1")));
    v.push(marked!(T_P0_O1, ops::<T_P0_O1>("T_P0_O1")));
    v.push(marked!(Y_P0_O1, ops::<Y_P0_O1>("Y_P0_O1")));
    v.push(marked!(S_P0_P2, ops::<S_P0_P2>("S_P0_P2")));
    v.push(marked!(L_P0_P2, ops::<L_P0_P2>("L_P0_P2")));
    v.push(marked!(S_P0_P3, ops::<S_P0_P3>("S_P0_P3")));
    v.push(marked!(T_P0_P3, ops::<T_P0_P3>("T_P0_P3")));
    v.push(marked!(Y_P0_P3, ops::<Y_P0_P3>("Y_P0_P3")));
    v.push(marked!(S_P0_I0, ops::<S_P0_I0>("S_P0_I0")));
    v.push(marked!(L_P0_I0, ops::<L_P0_I0>("L_P0_I0")));
    v.push(marked!(T_P0_S0, ops::<T_P0_S0>("T_P0_S0")));
    v.push(marked!(Y_P0_S0, ops::<Y_P0_S0>("Y_P0_S0")));
    v.push(marked!(S_P0_W0, ops::<S_P0_W0>("S_P0_W0")));
    v.push(marked!(S_P0_T0, ops::<S_P0_T0>("S_P0_T0")));
    v.push(marked!(L_P0_T0, ops::<L_P0_T0>("L_P0_T0")));
    v.push(marked!(T_P0_T0, ops::<T_P0_T0>("T_P0_T0")));
    v.push(marked!(Y_P0_T0, ops::<Y_P0_T0>("Y_P0_T0")));
    v.push(marked!(S_P0_I1, ops::<S_P0_I1>("S_P0_I1")));
    v.push(marked!(T_P0_S1, ops::<T_P0_S1>("T_P0_S1")));
    v.push(marked!(Y_P0_S1, ops::<Y_P0_S1>("Y_P0_S1")));
    v.push(marked!(S_P0_W1, ops::<S_P0_W1>("S_P0_W1")));
    v.push(marked!(L_P0_W1, ops::<L_P0_W1>("L_P0_W1")));
}
fn types10(v: &mut Vec<Ops>) {
    v.push(marked!(S_P0_T1, ops::<S_P0_T1>("S_P0_T1")));
    v.push(marked!(T_P0_T1, ops::<T_P0_T1>("T_P0_T1")));
    v.push(marked!(Y_P0_T1, ops::<Y_P0_T1>("Y_P0_T1")));
    v.push(marked!(S_P0_I2, ops::<S_P0_I2>("S_P0_I2")));
    v.push(marked!(L_P0_I2, ops::<L_P0_I2>("L_P0_I2")));
    v.push(marked!(T_P0_S2, ops::<T_P0_S2>("T_P0_S2")));
    v.push(marked!(Y_P0_S2, ops::<Y_P0_S2>("Y_P0_S2")));
    v.push(marked!(S_P0_W2, ops::<S_P0_W2>("S_P0_W2")));
    v.push(marked!(S_P0_T2, ops::<S_P0_T2>("S_P0_T2")));
    v.push(marked!(L_P0_T2, ops::<L_P0_T2>("L_P0_T2")));
    v.push(marked!(T_P0_T2, ops::<T_P0_T2>("T_P0_T2")));
    v.push(marked!(Y_P0_T2, ops::<Y_P0_T2>("Y_P0_T2")));
    v.push(marked!(S_P0_I3, ops::<S_P0_I3>("S_P0_I3")));
    v.push(marked!(T_P0_S3, ops::<T_P0_S3>("T_P0_S3")));
    v.push(marked!(Y_P0_S3, ops::<Y_P0_S3>("Y_P0_S3")));
    v.push(marked!(S_P0_W3, ops::<S_P0_W3>("S_P0_W3")));
    v.push(marked!(L_P0_W3, ops::<L_P0_W3>("L_P0_W3")));
    v.push(marked!(S_P0_T3, ops::<S_P0_T3>("S_P0_T3")));
    v.push(marked!(T_P0_T3, ops::<T_P0_T3>("T_P0_T3")));
    v.push(marked!(Y_P0_T3, ops::<Y_P0_T3>("Y_P0_T3")));
    v.push(marked!(S_O0_O0, ops::<S_O0_O0>("S_O0_O0")));
    v.push(marked!(T_O0_P1, ops::<T_O0_P1>("T_O0_P1")));
    v.push(marked!(Y_O0_P1, ops::<Y_O0_P1>("Y_O0_P1")));
    v.push(marked!(S_O0_O1, ops::<S_O0_O1>("S_O0_O1")));
    v.push(marked!(L_O0_O1, ops::<L_O0_O1>("L_O0_O1")));
    v.push(marked!(S_O0_O2, ops::<S_O0_O2>("S_O0_O2")));
    v.push(marked!(T_O0_O2, ops::<T_O0_O2>("T_O0_O2")));
    v.push(marked!(Y_O0_O2, ops::<Y_O0_O2>("Y_O0_O2")));
    v.push(marked!(S_O0_O3, ops::<S_O0_O3>("S_O0_O3")));
    v.push(marked!(L_O0_O3, ops::<L_O0_O3>("L_O0_O3")));
    v.push(marked!(S_O0_S0, ops::<S_O0_S0>("S_O0_S0")));
    v.push(marked!(S_O0_X0, ops::<S_O0_X0>("S_O0_X0")));
    v.push(marked!(L_O0_X0, ops::<L_O0_X0>("L_O0_X0")));
    v.push(marked!(T_O0_X0, ops::<T_O0_X0>("T_O0_X0")));
    v.push(marked!(Y_O0_X0, ops::<Y_O0_X0>("Y_O0_X0")));
    v.push(marked!(S_O0_R0, ops::<S_O0_R0>("S_O0_R0")));
    v.push(marked!(S_O0_S1, ops::<S_O0_S1>("S_O0_S1")));
    v.push(marked!(L_O0_S1, ops::<L_O0_S1>("L_O0_S1")));
    v.push(marked!(S_O0_X1, ops::<S_O0_X1>("S_O0_X1")));
    v.push(marked!(T_O0_X1, ops::<T_O0_X1>("T_O0_X1")));
    v.push(marked!(Y_O0_X1, ops::<Y_O0_X1>("Y_O0_X1")));
    v.push(marked!(S_O0_R1, ops::<S_O0_R1>("S_O0_R1")));
    v.push(marked!(L_O0_R1, ops::<L_O0_R1>("L_O0_R1")));
    v.push(marked!(S_O0_S2, ops::<S_O0_S2>("S_O0_S2")));
    v.push(marked!(S_O0_X2, ops::<S_O0_X2>("S_O0_X2")));
    v.push(marked!(L_O0_X2, ops::<L_O0_X2>("L_O0_X2")));
    v.push(marked!(T_O0_X2, ops::<T_O0_X2>("T_O0_X2")));
    v.push(marked!(Y_O0_X2, ops::<Y_O0_X2>("Y_O0_X2")));
    v.push(marked!(S_O0_R2, ops::<S_O0_R2>("S_O0_R2")));
    v.push(marked!(S_O0_S3, ops::<S_O0_S3>("S_O0_S3")));
}
fn types11(v: &mut Vec<Ops>) {
    v.push(marked!(L_O0_S3, ops::<L_O0_S3>("L_O0_S3")));
    v.push(marked!(S_O0_X3, ops::<S_O0_X3>("S_O0_X3")));
    v.push(marked!(T_O0_X3, ops::<T_O0_X3>("T_O0_X3")));
    v.push(marked!(Y_O0_X3, ops::<Y_O0_X3>("Y_O0_X3")));
    v.push(marked!(S_O0_R3, ops::<S_O0_R3>("S_O0_R3")));
    v.push(marked!(L_O0_R3, ops::<L_O0_R3>("L_O0_R3")));
    v.push(marked!(S_P1_P0, ops::<S_P1_P0>("S_P1_P0")));
    v.push(marked!(T_P1_O0, ops::<T_P1_O0>("T_P1_O0")));
    v.push(marked!(Y_P1_O0, ops::<Y_P1_O0>("Y_P1_O0")));
    v.push(marked!(S_P1_P1, ops::<S_P1_P1>("S_P1_P1")));
    v.push(marked!(L_P1_P1, ops::<L_P1_P1>("L_P1_P1")));
    v.push(marked!(S_P1_P2, ops::<S_P1_P2>("S_P1_P2")));
    v.push(marked!(T_P1_P2, ops::<T_P1_P2>("T_P1_P2")));
    v.push(marked!(Y_P1_P2, ops::<Y_P1_P2>("Y_P1_P2")));
    v.push(marked!(S_P1_P3, ops::<S_P1_P3>("S_P1_P3")));
    v.push(marked!(L_P1_P3, ops::<L_P1_P3>("L_P1_P3")));
    v.push(marked!(T_P1_O3, ops::<T_P1_O3>("T_P1_O3")));
    v.push(marked!(Y_P1_O3, ops::<Y_P1_O3>("Y_P1_O3")));
    v.push(marked!(S_P1_I0, ops::<S_P1_I0>("S_P1_I0")));
    v.push(marked!(S_P1_W0, ops::<S_P1_W0>("S_P1_W0")));
    v.push(marked!(L_P1_W0, ops::<L_P1_W0>("L_P1_W0")));
    v.push(marked!(T_P1_W0, ops::<T_P1_W0>("T_P1_W0")));
    v.push(marked!(Y_P1_W0, ops::<Y_P1_W0>("Y_P1_W0")));
    v.push(marked!(S_P1_T0, ops::<S_P1_T0>("S_P1_T0")));
    v.push(marked!(T_P1_R0, ops::<T_P1_R0>("T_P1_R0")));
    v.push(marked!(Y_P1_R0, ops::<Y_P1_R0>("Y_P1_R0")));
    v.push(marked!(S_P1_I1, ops::<S_P1_I1>("S_P1_I1")));
    v.push(marked!(L_P1_I1, ops::<L_P1_I1>("L_P1_I1")));
    v.push(marked!(S_P1_W1, ops::<S_P1_W1>("S_P1_W1")));
    v.push(marked!(T_P1_W1, ops::<T_P1_W1>("T_P1_W1")));
    v.push(marked!(Y_P1_W1, ops::<Y_P1_W1>("Y_P1_W1")));
    v.push(marked!(S_P1_T1, ops::<S_P1_T1>("S_P1_T1")));
    v.push(marked!(L_P1_T1, ops::<L_P1_T1>("L_P1_T1")));
    v.push(marked!(T_P1_R1, ops::<T_P1_R1>("T_P1_R1")));
    v.push(marked!(Y_P1_R1, ops::<Y_P1_R1>("Y_P1_R1")));
    v.push(marked!(S_P1_I2, ops::<S_P1_I2>("S_P1_I2")));
    v.push(marked!(S_P1_W2, ops::<S_P1_W2>("S_P1_W2")));
    v.push(marked!(L_P1_W2, ops::<L_P1_W2>("L_P1_W2")));
    v.push(marked!(T_P1_W2, ops::<T_P1_W2>("T_P1_W2")));
    v.push(marked!(Y_P1_W2, ops::<Y_P1_W2>("Y_P1_W2")));
    v.push(marked!(S_P1_T2, ops::<S_P1_T2>("S_P1_T2")));
    v.push(marked!(T_P1_R2, ops::<T_P1_R2>("T_P1_R2")));
    v.push(marked!(Y_P1_R2, ops::<Y_P1_R2>("Y_P1_R2")));
    v.push(marked!(S_P1_I3, ops::<S_P1_I3>("S_P1_I3")));
    v.push(marked!(L_P1_I3, ops::<L_P1_I3>("L_P1_I3")));
    v.push(marked!(S_P1_W3, ops::<S_P1_W3>("S_P1_W3")));
    v.push(marked!(T_P1_W3, ops::<T_P1_W3>("T_P1_W3")));
    v.push(marked!(Y_P1_W3, ops::<Y_P1_W3>("Y_P1_W3")));
    v.push(marked!(S_P1_T3, ops::<S_P1_T3>("S_P1_T3")));
    v.push(marked!(L_P1_T3, ops::<L_P1_T3>("L_P1_T3")));
}
fn types12(v: &mut Vec<Ops>) {
    v.push(marked!(T_P1_R3, ops::<T_P1_R3>("T_P1_R3")));
    v.push(marked!(Y_P1_R3, ops::<Y_P1_R3>("Y_P1_R3")));
    v.push(marked!(T_O1_P0, ops::<T_O1_P0>("T_O1_P0")));
    v.push(marked!(Y_O1_P0, ops::<Y_O1_P0>("Y_O1_P0")));
    v.push(marked!(S_O1_O0, ops::<S_O1_O0>("S_O1_O0")));
    v.push(marked!(L_O1_O0, ops::<L_O1_O0>("L_O1_O0")));
    v.push(marked!(S_O1_O1, ops::<S_O1_O1>("S_O1_O1")));
    v.push(marked!(T_O1_O1, ops::<T_O1_O1>("T_O1_O1")));
    v.push(marked!(Y_O1_O1, ops::<Y_O1_O1>("Y_O1_O1")));
    v.push(marked!(S_O1_O2, ops::<S_O1_O2>("S_O1_O2")));
    v.push(marked!(L_O1_O2, ops::<L_O1_O2>("L_O1_O2")));
    v.push(marked!(T_O1_P3, ops::<T_O1_P3>("T_O1_P3")));
    v.push(marked!(Y_O1_P3, ops::<Y_O1_P3>("Y_O1_P3")));
    v.push(marked!(S_O1_O3, ops::<S_O1_O3>("S_O1_O3")));
    v.push(marked!(S_O1_S0, ops::<S_O1_S0>("S_O1_S0")));
    v.push(marked!(L_O1_S0, ops::<L_O1_S0>("L_O1_S0")));
    v.push(marked!(T_O1_S0, ops::<T_O1_S0>("T_O1_S0")));
    v.push(marked!(Y_O1_S0, ops::<Y_O1_S0>("Y_O1_S0")));
    v.push(marked!(S_O1_X0, ops::<S_O1_X0>("S_O1_X0")));
    v.push(marked!(T_O1_T0, ops::<T_O1_T0>("T_O1_T0")));
    v.push(marked!(Y_O1_T0, ops::<Y_O1_T0>("Y_O1_T0")));
    v.push(marked!(S_O1_R0, ops::<S_O1_R0>("S_O1_R0")));
    v.push(marked!(L_O1_R0, ops::<L_O1_R0>("L_O1_R0")));
    v.push(marked!(S_O1_S1, ops::<S_O1_S1>("S_O1_S1")));
    v.push(marked!(T_O1_S1, ops::<T_O1_S1>("T_O1_S1")));
    v.push(marked!(Y_O1_S1, ops::<Y_O1_S1>("Y_O1_S1")));
    v.push(marked!(S_O1_X1, ops::<S_O1_X1>("S_O1_X1")));
    v.push(marked!(L_O1_X1, ops::<L_O1_X1>("L_O1_X1")));
    v.push(marked!(T_O1_T1, ops::<T_O1_T1>("T_O1_T1")));
    v.push(marked!(Y_O1_T1, ops::<Y_O1_T1>("Y_O1_T1")));
    v.push(marked!(S_O1_R1, ops::<S_O1_R1>("S_O1_R1")));
    v.push(marked!(S_O1_S2, ops::<S_O1_S2>("S_O1_S2")));
    v.push(marked!(L_O1_S2, ops::<L_O1_S2>("L_O1_S2")));
    v.push(marked!(T_O1_S2, ops::<T_O1_S2>("T_O1_S2")));
    v.push(marked!(Y_O1_S2, ops::<Y_O1_S2>("Y_O1_S2")));
    v.push(marked!(S_O1_X2, ops::<S_O1_X2>("S_O1_X2")));
    v.push(marked!(T_O1_T2, ops::<T_O1_T2>("T_O1_T2")));
    v.push(marked!(Y_O1_T2, ops::<Y_O1_T2>("Y_O1_T2")));
    v.push(marked!(S_O1_R2, ops::<S_O1_R2>("S_O1_R2")));
    v.push(marked!(L_O1_R2, ops::<L_O1_R2>("L_O1_R2")));
    v.push(marked!(S_O1_S3, ops::<S_O1_S3>("S_O1_S3")));
    v.push(marked!(T_O1_S3, ops::<T_O1_S3>("T_O1_S3")));
    v.push(marked!(Y_O1_S3, ops::<Y_O1_S3>("Y_O1_S3")));
    v.push(marked!(S_O1_X3, ops::<S_O1_X3>("S_O1_X3")));
    v.push(marked!(L_O1_X3, ops::<L_O1_X3>("L_O1_X3")));
    v.push(marked!(T_O1_T3, ops::<T_O1_T3>("T_O1_T3")));
    v.push(marked!(Y_O1_T3, ops::<Y_O1_T3>("Y_O1_T3")));
    v.push(marked!(S_O1_R3, ops::<S_O1_R3>("S_O1_R3")));
    v.push(marked!(S_P2_P0, ops::<S_P2_P0>("S_P2_P0")));
    v.push(marked!(L_P2_P0, ops::<L_P2_P0>("L_P2_P0")));
}
fn types13(v: &mut Vec<Ops>) {
    v.push(marked!(S_P2_P1, ops::<S_P2_P1>("S_P2_P1")));
    v.push(marked!(T_P2_P1, ops::<T_P2_P1>("T_P2_P1")));
    v.push(marked!(Y_P2_P1, ops::<Y_P2_P1>("Y_P2_P1")));
    v.push(marked!(S_P2_P2, ops::<S_P2_P2>("S_P2_P2")));
    v.push(marked!(L_P2_P2, ops::<L_P2_P2>("L_P2_P2")));
    v.push(marked!(T_P2_O2, ops::<T_P2_O2>("T_P2_O2")));
    v.push(marked!(Y_P2_O2, ops::<Y_P2_O2>("Y_P2_O2")));
    v.push(marked!(S_P2_P3, ops::<S_P2_P3>("S_P2_P3")));
    v.push(marked!(S_P2_I0, ops::<S_P2_I0>("S_P2_I0")));
    v.push(marked!(L_P2_I0, ops::<L_P2_I0>("L_P2_I0")));
    v.push(marked!(S_P2_W0, ops::<S_P2_W0>("S_P2_W0")));
    v.push(marked!(T_P2_X0, ops::<T_P2_X0>("T_P2_X0")));
    v.push(marked!(Y_P2_X0, ops::<Y_P2_X0>("Y_P2_X0")));
    v.push(marked!(S_P2_T0, ops::<S_P2_T0>("S_P2_T0")));
    v.push(marked!(L_P2_T0, ops::<L_P2_T0>("L_P2_T0")));
    v.push(marked!(S_P2_I1, ops::<S_P2_I1>("S_P2_I1")));
    v.push(marked!(S_P2_W1, ops::<S_P2_W1>("S_P2_W1")));
    v.push(marked!(L_P2_W1, ops::<L_P2_W1>("L_P2_W1")));
    v.push(marked!(T_P2_X1, ops::<T_P2_X1>("T_P2_X1")));
    v.push(marked!(Y_P2_X1, ops::<Y_P2_X1>("Y_P2_X1")));
    v.push(marked!(S_P2_T1, ops::<S_P2_T1>("S_P2_T1")));
    v.push(marked!(S_P2_I2, ops::<S_P2_I2>("S_P2_I2")));
    v.push(marked!(L_P2_I2, ops::<L_P2_I2>("L_P2_I2")));
    v.push(marked!(S_P2_W2, ops::<S_P2_W2>("S_P2_W2")));
    v.push(marked!(T_P2_X2, ops::<T_P2_X2>("T_P2_X2")));
    v.push(marked!(Y_P2_X2, ops::<Y_P2_X2>("Y_P2_X2")));
    v.push(marked!(S_P2_T2, ops::<S_P2_T2>("S_P2_T2")));
    v.push(marked!(L_P2_T2, ops::<L_P2_T2>("L_P2_T2")));
    v.push(marked!(S_P2_I3, ops::<S_P2_I3>("S_P2_I3")));
    v.push(marked!(S_P2_W3, ops::<S_P2_W3>("S_P2_W3")));
    v.push(marked!(L_P2_W3, ops::<L_P2_W3>("L_P2_W3")));
    v.push(marked!(T_P2_X3, ops::<T_P2_X3>("T_P2_X3")));
    v.push(marked!(Y_P2_X3, ops::<Y_P2_X3>("Y_P2_X3")));
    v.push(marked!(S_P2_T3, ops::<S_P2_T3>("S_P2_T3")));
    v.push(marked!(S_O2_O0, ops::<S_O2_O0>("S_O2_O0")));
    v.push(marked!(T_O2_O0, ops::<T_O2_O0>("T_O2_O0")));
    v.push(marked!(Y_O2_O0, ops::<Y_O2_O0>("Y_O2_O0")));
    v.push(marked!(S_O2_P1, ops::<S_O2_P1>("S_O2_P1")));
    v.push(marked!(S_O2_O1, ops::<S_O2_O1>("S_O2_O1")));
    v.push(marked!(L_O2_O1, ops::<L_O2_O1>("L_O2_O1")));
    v.push(marked!(T_O2_P2, ops::<T_O2_P2>("T_O2_P2")));
    v.push(marked!(Y_O2_P2, ops::<Y_O2_P2>("Y_O2_P2")));
    v.push(marked!(S_O2_O2, ops::<S_O2_O2>("S_O2_O2")));
    v.push(marked!(S_O2_O3, ops::<S_O2_O3>("S_O2_O3")));
    v.push(marked!(L_O2_O3, ops::<L_O2_O3>("L_O2_O3")));
    v.push(marked!(T_O2_O3, ops::<T_O2_O3>("T_O2_O3")));
    v.push(marked!(Y_O2_O3, ops::<Y_O2_O3>("Y_O2_O3")));
    v.push(marked!(S_O2_S0, ops::<S_O2_S0>("S_O2_S0")));
    v.push(marked!(T_O2_W0, ops::<T_O2_W0>("T_O2_W0")));
    v.push(marked!(Y_O2_W0, ops::<Y_O2_W0>("Y_O2_W0")));
}
fn types14(v: &mut Vec<Ops>) {
    v.push(marked!(S_O2_X0, ops::<S_O2_X0>("S_O2_X0")));
    v.push(marked!(L_O2_X0, ops::<L_O2_X0>("L_O2_X0")));
    v.push(marked!(S_O2_R0, ops::<S_O2_R0>("S_O2_R0")));
    v.push(marked!(T_O2_R0, ops::<T_O2_R0>("T_O2_R0")));
    v.push(marked!(Y_O2_R0, ops::<Y_O2_R0>("Y_O2_R0")));
    v.push(marked!(S_O2_S1, ops::<S_O2_S1>("S_O2_S1")));
    v.push(marked!(L_O2_S1, ops::<L_O2_S1>("L_O2_S1")));
    v.push(marked!(T_O2_W1, ops::<T_O2_W1>("T_O2_W1")));
    v.push(marked!(Y_O2_W1, ops::<Y_O2_W1>("Y_O2_W1")));
    v.push(marked!(S_O2_X1, ops::<S_O2_X1>("S_O2_X1")));
    v.push(marked!(S_O2_R1, ops::<S_O2_R1>("S_O2_R1")));
    v.push(marked!(L_O2_R1, ops::<L_O2_R1>("L_O2_R1")));
    v.push(marked!(T_O2_R1, ops::<T_O2_R1>("T_O2_R1")));
    v.push(marked!(Y_O2_R1, ops::<Y_O2_R1>("Y_O2_R1")));
    v.push(marked!(S_O2_S2, ops::<S_O2_S2>("S_O2_S2")));
    v.push(marked!(T_O2_W2, ops::<T_O2_W2>("T_O2_W2")));
    v.push(marked!(Y_O2_W2, ops::<Y_O2_W2>("Y_O2_W2")));
    v.push(marked!(S_O2_X2, ops::<S_O2_X2>("S_O2_X2")));
    v.push(marked!(L_O2_X2, ops::<L_O2_X2>("L_O2_X2")));
    v.push(marked!(S_O2_R2, ops::<S_O2_R2>("S_O2_R2")));
    v.push(marked!(T_O2_R2, ops::<T_O2_R2>("T_O2_R2")));
    v.push(marked!(Y_O2_R2, ops::<Y_O2_R2>("Y_O2_R2")));
    v.push(marked!(S_O2_S3, ops::<S_O2_S3>("S_O2_S3")));
    v.push(marked!(L_O2_S3, ops::<L_O2_S3>("L_O2_S3")));
    v.push(marked!(T_O2_W3, ops::<T_O2_W3>("T_O2_W3")));
    v.push(marked!(Y_O2_W3, ops::<Y_O2_W3>("Y_O2_W3")));
    v.push(marked!(S_O2_X3, ops::<S_O2_X3>("S_O2_X3")));
    v.push(marked!(S_O2_R3, ops::<S_O2_R3>("S_O2_R3")));
    v.push(marked!(L_O2_R3, ops::<L_O2_R3>("L_O2_R3")));
    v.push(marked!(T_O2_R3, ops::<T_O2_R3>("T_O2_R3")));
    v.push(marked!(Y_O2_R3, ops::<Y_O2_R3>("Y_O2_R3")));
    v.push(marked!(S_P3_P0, ops::<S_P3_P0>("S_P3_P0")));
    v.push(marked!(T_P3_P0, ops::<T_P3_P0>("T_P3_P0")));
    v.push(marked!(Y_P3_P0, ops::<Y_P3_P0>("Y_P3_P0")));
    v.push(marked!(S_P3_P1, ops::<S_P3_P1>("S_P3_P1")));
    v.push(marked!(L_P3_P1, ops::<L_P3_P1>("L_P3_P1")));
    v.push(marked!(T_P3_O1, ops::<T_P3_O1>("T_P3_O1")));
    v.push(marked!(Y_P3_O1, ops::<Y_P3_O1>("Y_P3_O1")));
    v.push(marked!(S_P3_P2, ops::<S_P3_P2>("S_P3_P2")));
    v.push(marked!(S_P3_P3, ops::<S_P3_P3>("S_P3_P3")));
    v.push(marked!(L_P3_P3, ops::<L_P3_P3>("L_P3_P3")));
    v.push(marked!(T_P3_P3, ops::<T_P3_P3>("T_P3_P3")));
    v.push(marked!(Y_P3_P3, ops::<Y_P3_P3>("Y_P3_P3")));
    v.push(marked!(S_P3_I0, ops::<S_P3_I0>("S_P3_I0")));
    v.push(marked!(T_P3_S0, ops::<T_P3_S0>("T_P3_S0")));
    v.push(marked!(Y_P3_S0, ops::<Y_P3_S0>("Y_P3_S0")));
    v.push(marked!(S_P3_W0, ops::<S_P3_W0>("S_P3_W0")));
    v.push(marked!(L_P3_W0, ops::<L_P3_W0>("L_P3_W0")));
    v.push(marked!(S_P3_T0, ops::<S_P3_T0>("S_P3_T0")));
    v.push(marked!(T_P3_T0, ops::<T_P3_T0>("T_P3_T0")));
}
fn types15(v: &mut Vec<Ops>) {
    v.push(marked!(Y_P3_T0, ops::<Y_P3_T0>("Y_P3_T0")));
    v.push(marked!(S_P3_I1, ops::<S_P3_I1>("S_P3_I1")));
    v.push(marked!(L_P3_I1, ops::<L_P3_I1>("L_P3_I1")));
    v.push(marked!(T_P3_S1, ops::<T_P3_S1>("T_P3_S1")));
    v.push(marked!(Y_P3_S1, ops::<Y_P3_S1>("Y_P3_S1")));
    v.push(marked!(S_P3_W1, ops::<S_P3_W1>("S_P3_W1")));
    v.push(marked!(S_P3_T1, ops::<S_P3_T1>("S_P3_T1")));
    v.push(marked!(L_P3_T1, ops::<L_P3_T1>("L_P3_T1")));
    v.push(marked!(T_P3_T1, ops::<T_P3_T1>("T_P3_T1")));
    v.push(marked!(Y_P3_T1, ops::<Y_P3_T1>("Y_P3_T1")));
    v.push(marked!(S_P3_I2, ops::<S_P3_I2>("S_P3_I2")));
    v.push(marked!(T_P3_S2, ops::<T_P3_S2>("T_P3_S2")));
    v.push(marked!(Y_P3_S2, ops::<Y_P3_S2>("Y_P3_S2")));
    v.push(marked!(S_P3_W2, ops::<S_P3_W2>("S_P3_W2")));
    v.push(marked!(L_P3_W2, ops::<L_P3_W2>("L_P3_W2")));
    v.push(marked!(S_P3_T2, ops::<S_P3_T2>("S_P3_T2")));
    v.push(marked!(T_P3_T2, ops::<T_P3_T2>("T_P3_T2")));
    v.push(marked!(Y_P3_T2, ops::<Y_P3_T2>("Y_P3_T2")));
    v.push(marked!(S_P3_I3, ops::<S_P3_I3>("S_P3_I3")));
    v.push(marked!(L_P3_I3, ops::<L_P3_I3>("L_P3_I3")));
    v.push(marked!(T_P3_S3, ops::<T_P3_S3>("T_P3_S3")));
    v.push(marked!(Y_P3_S3, ops::<Y_P3_S3>("Y_P3_S3")));
    v.push(marked!(S_P3_W3, ops::<S_P3_W3>("S_P3_W3")));
    v.push(marked!(S_P3_T3, ops::<S_P3_T3>("S_P3_T3")));
    v.push(marked!(L_P3_T3, ops::<L_P3_T3>("L_P3_T3")));
    v.push(marked!(T_P3_T3, ops::<T_P3_T3>("T_P3_T3")));
    v.push(marked!(Y_P3_T3, ops::<Y_P3_T3>("Y_P3_T3")));
    v.push(marked!(S_O3_O0, ops::<S_O3_O0>("S_O3_O0")));
    v.push(marked!(L_O3_O0, ops::<L_O3_O0>("L_O3_O0")));
    v.push(marked!(T_O3_P1, ops::<T_O3_P1>("T_O3_P1")));
    v.push(marked!(Y_O3_P1, ops::<Y_O3_P1>("Y_O3_P1")));
    v.push(marked!(S_O3_O1, ops::<S_O3_O1>("S_O3_O1")));
    v.push(marked!(S_O3_O2, ops::<S_O3_O2>("S_O3_O2")));
    v.push(marked!(L_O3_O2, ops::<L_O3_O2>("L_O3_O2")));
    v.push(marked!(T_O3_O2, ops::<T_O3_O2>("T_O3_O2")));
    v.push(marked!(Y_O3_O2, ops::<Y_O3_O2>("Y_O3_O2")));
    v.push(marked!(S_O3_O3, ops::<S_O3_O3>("S_O3_O3")));
    v.push(marked!(S_O3_S0, ops::<S_O3_S0>("S_O3_S0")));
    v.push(marked!(L_O3_S0, ops::<L_O3_S0>("L_O3_S0")));
    v.push(marked!(S_O3_X0, ops::<S_O3_X0>("S_O3_X0")));
    v.push(marked!(T_O3_X0, ops::<T_O3_X0>("T_O3_X0")));
    v.push(marked!(Y_O3_X0, ops::<Y_O3_X0>("Y_O3_X0")));
    v.push(marked!(S_O3_R0, ops::<S_O3_R0>("S_O3_R0")));
    v.push(marked!(L_O3_R0, ops::<L_O3_R0>("L_O3_R0")));
    v.push(marked!(S_O3_S1, ops::<S_O3_S1>("S_O3_S1")));
    v.push(marked!(S_O3_X1, ops::<S_O3_X1>("S_O3_X1")));
    v.push(marked!(L_O3_X1, ops::<L_O3_X1>("L_O3_X1")));
    v.push(marked!(T_O3_X1, ops::<T_O3_X1>("T_O3_X1")));
    v.push(marked!(Y_O3_X1, ops::<Y_O3_X1>("Y_O3_X1")));
    v.push(marked!(S_O3_R1, ops::<S_O3_R1>("S_O3_R1")));
}
fn types16(v: &mut Vec<Ops>) {
    v.push(marked!(S_O3_S2, ops::<S_O3_S2>("S_O3_S2")));
    v.push(marked!(L_O3_S2, ops::<L_O3_S2>("L_O3_S2")));
    v.push(marked!(S_O3_X2, ops::<S_O3_X2>("S_O3_X2")));
    v.push(marked!(T_O3_X2, ops::<T_O3_X2>("T_O3_X2")));
    v.push(marked!(Y_O3_X2, ops::<Y_O3_X2>("Y_O3_X2")));
    v.push(marked!(S_O3_R2, ops::<S_O3_R2>("S_O3_R2")));
    v.push(marked!(L_O3_R2, ops::<L_O3_R2>("L_O3_R2")));
    v.push(marked!(S_O3_S3, ops::<S_O3_S3>("S_O3_S3")));
    v.push(marked!(S_O3_X3, ops::<S_O3_X3>("S_O3_X3")));
    v.push(marked!(L_O3_X3, ops::<L_O3_X3>("L_O3_X3")));
    v.push(marked!(T_O3_X3, ops::<T_O3_X3>("T_O3_X3")));
    v.push(marked!(Y_O3_X3, ops::<Y_O3_X3>("Y_O3_X3")));
    v.push(marked!(S_O3_R3, ops::<S_O3_R3>("S_O3_R3")));
    v.push(marked!(S_I0_P0, ops::<S_I0_P0>("S_I0_P0")));
    v.push(marked!(L_I0_P0, ops::<L_I0_P0>("L_I0_P0")));
    v.push(marked!(S_I0_P1, ops::<S_I0_P1>("S_I0_P1")));
    v.push(marked!(S_I0_P2, ops::<S_I0_P2>("S_I0_P2")));
    v.push(marked!(L_I0_P2, ops::<L_I0_P2>("L_I0_P2")));
    v.push(marked!(S_I0_P3, ops::<S_I0_P3>("S_I0_P3")));
    v.push(marked!(S_I0_I0, ops::<S_I0_I0>("S_I0_I0")));
    v.push(marked!(L_I0_I0, ops::<L_I0_I0>("L_I0_I0")));
    v.push(marked!(S_I0_W0, ops::<S_I0_W0>("S_I0_W0")));
    v.push(marked!(S_I0_T0, ops::<S_I0_T0>("S_I0_T0")));
    v.push(marked!(L_I0_T0, ops::<L_I0_T0>("L_I0_T0")));
    v.push(marked!(S_I0_I1, ops::<S_I0_I1>("S_I0_I1")));
    v.push(marked!(S_I0_W1, ops::<S_I0_W1>("S_I0_W1")));
    v.push(marked!(L_I0_W1, ops::<L_I0_W1>("L_I0_W1")));
    v.push(marked!(S_I0_T1, ops::<S_I0_T1>("S_I0_T1")));
    v.push(marked!(S_I0_I2, ops::<S_I0_I2>("S_I0_I2")));
    v.push(marked!(L_I0_I2, ops::<L_I0_I2>("L_I0_I2")));
    v.push(marked!(S_I0_W2, ops::<S_I0_W2>("S_I0_W2")));
    v.push(marked!(S_I0_T2, ops::<S_I0_T2>("S_I0_T2")));
    v.push(marked!(L_I0_T2, ops::<L_I0_T2>("L_I0_T2")));
    v.push(marked!(S_I0_I3, ops::<S_I0_I3>("S_I0_I3")));
    v.push(marked!(S_I0_W3, ops::<S_I0_W3>("S_I0_W3")));
    v.push(marked!(L_I0_W3, ops::<L_I0_W3>("L_I0_W3")));
    v.push(marked!(S_I0_T3, ops::<S_I0_T3>("S_I0_T3")));
    v.push(marked!(T_S0_P0, ops::<T_S0_P0>("T_S0_P0")));
    v.push(marked!(Y_S0_P0, ops::<Y_S0_P0>("Y_S0_P0")));
    v.push(marked!(S_S0_O0, ops::<S_S0_O0>("S_S0_O0")));
    v.push(marked!(S_S0_O1, ops::<S_S0_O1>("S_S0_O1")));
    v.push(marked!(L_S0_O1, ops::<L_S0_O1>("L_S0_O1")));
    v.push(marked!(T_S0_O1, ops::<T_S0_O1>("T_S0_O1")));
    v.push(marked!(Y_S0_O1, ops::<Y_S0_O1>("Y_S0_O1")));
    v.push(marked!(S_S0_O2, ops::<S_S0_O2>("S_S0_O2")));
    v.push(marked!(T_S0_P3, ops::<T_S0_P3>("T_S0_P3")));
    v.push(marked!(Y_S0_P3, ops::<Y_S0_P3>("Y_S0_P3")));
    v.push(marked!(S_S0_O3, ops::<S_S0_O3>("S_S0_O3")));
    v.push(marked!(L_S0_O3, ops::<L_S0_O3>("L_S0_O3")));
    v.push(marked!(S_S0_S0, ops::<S_S0_S0>("S_S0_S0")));
}
fn types17(v: &mut Vec<Ops>) {
    v.push(marked!(T_S0_S0, ops::<T_S0_S0>("T_S0_S0")));
    v.push(marked!(Y_S0_S0, ops::<Y_S0_S0>("Y_S0_S0")));
    v.push(marked!(S_S0_X0, ops::<S_S0_X0>("S_S0_X0")));
    v.push(marked!(L_S0_X0, ops::<L_S0_X0>("L_S0_X0")));
    v.push(marked!(T_S0_T0, ops::<T_S0_T0>("T_S0_T0")));
    v.push(marked!(Y_S0_T0, ops::<Y_S0_T0>("Y_S0_T0")));
    v.push(marked!(S_S0_R0, ops::<S_S0_R0>("S_S0_R0")));
    v.push(marked!(S_S0_S1, ops::<S_S0_S1>("S_S0_S1")));
    v.push(marked!(L_S0_S1, ops::<L_S0_S1>("L_S0_S1")));
    v.push(marked!(T_S0_S1, ops::<T_S0_S1>("T_S0_S1")));
    v.push(marked!(Y_S0_S1, ops::<Y_S0_S1>("Y_S0_S1")));
    v.push(marked!(S_S0_X1, ops::<S_S0_X1>("S_S0_X1")));
    v.push(marked!(T_S0_T1, ops::<T_S0_T1>("T_S0_T1")));
    v.push(marked!(Y_S0_T1, ops::<Y_S0_T1>("Y_S0_T1")));
    v.push(marked!(S_S0_R1, ops::<S_S0_R1>("S_S0_R1")));
    v.push(marked!(L_S0_R1, ops::<L_S0_R1>("L_S0_R1")));
    v.push(marked!(S_S0_S2, ops::<S_S0_S2>("S_S0_S2")));
    v.push(marked!(T_S0_S2, ops::<T_S0_S2>("T_S0_S2")));
    v.push(marked!(Y_S0_S2, ops::<Y_S0_S2>("Y_S0_S2")));
    v.push(marked!(S_S0_X2, ops::<S_S0_X2>("S_S0_X2")));
    v.push(marked!(L_S0_X2, ops::<L_S0_X2>("L_S0_X2")));
    v.push(marked!(T_S0_T2, ops::<T_S0_T2>("T_S0_T2")));
    v.push(marked!(Y_S0_T2, ops::<Y_S0_T2>("Y_S0_T2")));
    v.push(marked!(S_S0_R2, ops::<S_S0_R2>("S_S0_R2")));
    v.push(marked!(S_S0_S3, ops::<S_S0_S3>("S_S0_S3")));
    v.push(marked!(L_S0_S3, ops::<L_S0_S3>("L_S0_S3")));
    v.push(marked!(T_S0_S3, ops::<T_S0_S3>("T_S0_S3")));
    v.push(marked!(Y_S0_S3, ops::<Y_S0_S3>("Y_S0_S3")));
    v.push(marked!(S_S0_X3, ops::<S_S0_X3>("S_S0_X3")));
    v.push(marked!(T_S0_T3, ops::<T_S0_T3>("T_S0_T3")));
    v.push(marked!(Y_S0_T3, ops::<Y_S0_T3>("Y_S0_T3")));
    v.push(marked!(S_S0_R3, ops::<S_S0_R3>("S_S0_R3")));
    v.push(marked!(L_S0_R3, ops::<L_S0_R3>("L_S0_R3")));
    v.push(marked!(S_W0_P0, ops::<S_W0_P0>("S_W0_P0")));
    v.push(marked!(S_W0_P1, ops::<S_W0_P1>("S_W0_P1")));
    v.push(marked!(L_W0_P1, ops::<L_W0_P1>("L_W0_P1")));
    v.push(marked!(T_W0_P1, ops::<T_W0_P1>("T_W0_P1")));
    v.push(marked!(Y_W0_P1, ops::<Y_W0_P1>("Y_W0_P1")));
    v.push(marked!(S_W0_P2, ops::<S_W0_P2>("S_W0_P2")));
    v.push(marked!(T_W0_O2, ops::<T_W0_O2>("T_W0_O2")));
    v.push(marked!(Y_W0_O2, ops::<Y_W0_O2>("Y_W0_O2")));
    v.push(marked!(S_W0_P3, ops::<S_W0_P3>("S_W0_P3")));
    v.push(marked!(L_W0_P3, ops::<L_W0_P3>("L_W0_P3")));
    v.push(marked!(S_W0_I0, ops::<S_W0_I0>("S_W0_I0")));
    v.push(marked!(S_W0_W0, ops::<S_W0_W0>("S_W0_W0")));
    v.push(marked!(L_W0_W0, ops::<L_W0_W0>("L_W0_W0")));
    v.push(marked!(T_W0_X0, ops::<T_W0_X0>("T_W0_X0")));
    v.push(marked!(Y_W0_X0, ops::<Y_W0_X0>("Y_W0_X0")));
    v.push(marked!(S_W0_T0, ops::<S_W0_T0>("S_W0_T0")));
    v.push(marked!(S_W0_I1, ops::<S_W0_I1>("S_W0_I1")));
}
fn types18(v: &mut Vec<Ops>) {
    v.push(marked!(L_W0_I1, ops::<L_W0_I1>("L_W0_I1")));
    v.push(marked!(S_W0_W1, ops::<S_W0_W1>("S_W0_W1")));
    v.push(marked!(T_W0_X1, ops::<T_W0_X1>("T_W0_X1")));
    v.push(marked!(Y_W0_X1, ops::<Y_W0_X1>("Y_W0_X1")));
    v.push(marked!(S_W0_T1, ops::<S_W0_T1>("S_W0_T1")));
    v.push(marked!(L_W0_T1, ops::<L_W0_T1>("L_W0_T1")));
    v.push(marked!(S_W0_I2, ops::<S_W0_I2>("S_W0_I2")));
    v.push(marked!(S_W0_W2, ops::<S_W0_W2>("S_W0_W2")));
    v.push(marked!(L_W0_W2, ops::<L_W0_W2>("L_W0_W2")));
    v.push(marked!(T_W0_X2, ops::<T_W0_X2>("T_W0_X2")));
    v.push(marked!(Y_W0_X2, ops::<Y_W0_X2>("Y_W0_X2")));
    v.push(marked!(S_W0_T2, ops::<S_W0_T2>("S_W0_T2")));
    v.push(marked!(S_W0_I3, ops::<S_W0_I3>("S_W0_I3")));
    v.push(marked!(L_W0_I3, ops::<L_W0_I3>("L_W0_I3")));
    v.push(marked!(S_W0_W3, ops::<S_W0_W3>("S_W0_W3")));
    v.push(marked!(T_W0_X3, ops::<T_W0_X3>("T_W0_X3")));
    v.push(marked!(Y_W0_X3, ops::<Y_W0_X3>("Y_W0_X3")));
    v.push(marked!(S_W0_T3, ops::<S_W0_T3>("S_W0_T3")));
    v.push(marked!(L_W0_T3, ops::<L_W0_T3>("L_W0_T3")));
    v.push(marked!(S_X0_O0, ops::<S_X0_O0>("S_X0_O0")));
    v.push(marked!(L_X0_O0, ops::<L_X0_O0>("L_X0_O0")));
    v.push(marked!(T_X0_O0, ops::<T_X0_O0>("T_X0_O0")));
    v.push(marked!(Y_X0_O0, ops::<Y_X0_O0>("Y_X0_O0")));
    v.push(marked!(S_X0_O1, ops::<S_X0_O1>("S_X0_O1")));
    v.push(marked!(T_X0_P2, ops::<T_X0_P2>("T_X0_P2")));
    v.push(marked!(Y_X0_P2, ops::<Y_X0_P2>("Y_X0_P2")));
    v.push(marked!(S_X0_O2, ops::<S_X0_O2>("S_X0_O2")));
    v.push(marked!(L_X0_O2, ops::<L_X0_O2>("L_X0_O2")));
    v.push(marked!(S_X0_O3, ops::<S_X0_O3>("S_X0_O3")));
    v.push(marked!(T_X0_O3, ops::<T_X0_O3>("T_X0_O3")));
    v.push(marked!(Y_X0_O3, ops::<Y_X0_O3>("Y_X0_O3")));
    v.push(marked!(S_X0_S0, ops::<S_X0_S0>("S_X0_S0")));
    v.push(marked!(L_X0_S0, ops::<L_X0_S0>("L_X0_S0")));
    v.push(marked!(T_X0_W0, ops::<T_X0_W0>("T_X0_W0")));
    v.push(marked!(Y_X0_W0, ops::<Y_X0_W0>("Y_X0_W0")));
    v.push(marked!(S_X0_X0, ops::<S_X0_X0>("S_X0_X0")));
    v.push(marked!(S_X0_R0, ops::<S_X0_R0>("S_X0_R0")));
    v.push(marked!(L_X0_R0, ops::<L_X0_R0>("L_X0_R0")));
    v.push(marked!(T_X0_R0, ops::<T_X0_R0>("T_X0_R0")));
    v.push(marked!(Y_X0_R0, ops::<Y_X0_R0>("Y_X0_R0")));
    v.push(marked!(S_X0_S1, ops::<S_X0_S1>("S_X0_S1")));
    v.push(marked!(T_X0_W1, ops::<T_X0_W1>("T_X0_W1")));
    v.push(marked!(Y_X0_W1, ops::<Y_X0_W1>("Y_X0_W1")));
    v.push(marked!(S_X0_X1, ops::<S_X0_X1>("S_X0_X1")));
    v.push(marked!(L_X0_X1, ops::<L_X0_X1>("L_X0_X1")));
    v.push(marked!(S_X0_R1, ops::<S_X0_R1>("S_X0_R1")));
    v.push(marked!(T_X0_R1, ops::<T_X0_R1>("T_X0_R1")));
    v.push(marked!(Y_X0_R1, ops::<Y_X0_R1>("Y_X0_R1")));
    v.push(marked!(S_X0_S2, ops::<S_X0_S2>("S_X0_S2")));
    v.push(marked!(L_X0_S2, ops::<L_X0_S2>("L_X0_S2")));
}
fn types19(v: &mut Vec<Ops>) {
    v.push(marked!(T_X0_W2, ops::<T_X0_W2>("T_X0_W2")));
    v.push(marked!(Y_X0_W2, ops::<Y_X0_W2>("Y_X0_W2")));
    v.push(marked!(S_X0_X2, ops::<S_X0_X2>("S_X0_X2")));
    v.push(marked!(S_X0_R2, ops::<S_X0_R2>("S_X0_R2")));
    v.push(marked!(L_X0_R2, ops::<L_X0_R2>("L_X0_R2")));
    v.push(marked!(T_X0_R2, ops::<T_X0_R2>("T_X0_R2")));
    v.push(marked!(Y_X0_R2, ops::<Y_X0_R2>("Y_X0_R2")));
    v.push(marked!(S_X0_S3, ops::<S_X0_S3>("S_X0_S3")));
    v.push(marked!(T_X0_W3, ops::<T_X0_W3>("T_X0_W3")));
    v.push(marked!(Y_X0_W3, ops::<Y_X0_W3>("Y_X0_W3")));
    v.push(marked!(S_X0_X3, ops::<S_X0_X3>("S_X0_X3")));
    v.push(marked!(L_X0_X3, ops::<L_X0_X3>("L_X0_X3")));
    v.push(marked!(S_X0_R3, ops::<S_X0_R3>("S_X0_R3")));
    v.push(marked!(T_X0_R3, ops::<T_X0_R3>("T_X0_R3")));
    v.push(marked!(Y_X0_R3, ops::<Y_X0_R3>("Y_X0_R3")));
    v.push(marked!(S_T0_P0, ops::<S_T0_P0>("S_T0_P0")));
    v.push(marked!(L_T0_P0, ops::<L_T0_P0>("L_T0_P0")));
    v.push(marked!(T_T0_P0, ops::<T_T0_P0>("T_T0_P0")));
    v.push(marked!(Y_T0_P0, ops::<Y_T0_P0>("Y_T0_P0")));
    v.push(marked!(S_T0_P1, ops::<S_T0_P1>("S_T0_P1")));
    v.push(marked!(T_T0_O1, ops::<T_T0_O1>("T_T0_O1")));
    v.push(marked!(Y_T0_O1, ops::<Y_T0_O1>("Y_T0_O1")));
    v.push(marked!(S_T0_P2, ops::<S_T0_P2>("S_T0_P2")));
    v.push(marked!(L_T0_P2, ops::<L_T0_P2>("L_T0_P2")));
    v.push(marked!(S_T0_P3, ops::<S_T0_P3>("S_T0_P3")));
    v.push(marked!(T_T0_P3, ops::<T_T0_P3>("T_T0_P3")));
    v.push(marked!(Y_T0_P3, ops::<Y_T0_P3>("Y_T0_P3")));
    v.push(marked!(S_T0_I0, ops::<S_T0_I0>("S_T0_I0")));
    v.push(marked!(L_T0_I0, ops::<L_T0_I0>("L_T0_I0")));
    v.push(marked!(T_T0_S0, ops::<T_T0_S0>("T_T0_S0")));
    v.push(marked!(Y_T0_S0, ops::<Y_T0_S0>("Y_T0_S0")));
    v.push(marked!(S_T0_W0, ops::<S_T0_W0>("S_T0_W0")));
    v.push(marked!(S_T0_T0, ops::<S_T0_T0>("S_T0_T0")));
    v.push(marked!(L_T0_T0, ops::<L_T0_T0>("L_T0_T0")));
    v.push(marked!(T_T0_T0, ops::<T_T0_T0>("T_T0_T0")));
    v.push(marked!(Y_T0_T0, ops::<Y_T0_T0>("Y_T0_T0")));
    v.push(marked!(S_T0_I1, ops::<S_T0_I1>("S_T0_I1")));
    v.push(marked!(T_T0_S1, ops::<T_T0_S1>("T_T0_S1")));
    v.push(marked!(Y_T0_S1, ops::<Y_T0_S1>("Y_T0_S1")));
    v.push(marked!(S_T0_W1, ops::<S_T0_W1>("S_T0_W1")));
    v.push(marked!(L_T0_W1, ops::<L_T0_W1>("L_T0_W1")));
    v.push(marked!(S_T0_T1, ops::<S_T0_T1>("S_T0_T1")));
    v.push(marked!(T_T0_T1, ops::<T_T0_T1>("T_T0_T1")));
    v.push(marked!(Y_T0_T1, ops::<Y_T0_T1>("Y_T0_T1")));
    v.push(marked!(S_T0_I2, ops::<S_T0_I2>("S_T0_I2")));
    v.push(marked!(L_T0_I2, ops::<L_T0_I2>("L_T0_I2")));
    v.push(marked!(T_T0_S2, ops::<T_T0_S2>("T_T0_S2")));
    v.push(marked!(Y_T0_S2, ops::<Y_T0_S2>("Y_T0_S2")));
    v.push(marked!(S_T0_W2, ops::<S_T0_W2>("S_T0_W2")));
    v.push(marked!(S_T0_T2, ops::<S_T0_T2>("S_T0_T2")));
}
fn types20(v: &mut Vec<Ops>) {
    v.push(marked!(L_T0_T2, ops::<L_T0_T2>("L_T0_T2")));
    v.push(marked!(T_T0_T2, ops::<T_T0_T2>("T_T0_T2")));
    v.push(marked!(Y_T0_T2, ops::<Y_T0_T2>("Y_T0_T2")));
    v.push(marked!(S_T0_I3, ops::<S_T0_I3>("S_T0_I3")));
    v.push(marked!(T_T0_S3, ops::<T_T0_S3>("T_T0_S3")));
    v.push(marked!(Y_T0_S3, ops::<Y_T0_S3>("Y_T0_S3")));
    v.push(marked!(S_T0_W3, ops::<S_T0_W3>("S_T0_W3")));
    v.push(marked!(L_T0_W3, ops::<L_T0_W3>("L_T0_W3")));
    v.push(marked!(S_T0_T3, ops::<S_T0_T3>("S_T0_T3")));
    v.push(marked!(T_T0_T3, ops::<T_T0_T3>("T_T0_T3")));
    v.push(marked!(Y_T0_T3, ops::<Y_T0_T3>("Y_T0_T3")));
    v.push(marked!(S_R0_O0, ops::<S_R0_O0>("S_R0_O0")));
    v.push(marked!(T_R0_P1, ops::<T_R0_P1>("T_R0_P1")));
    v.push(marked!(Y_R0_P1, ops::<Y_R0_P1>("Y_R0_P1")));
    v.push(marked!(S_R0_O1, ops::<S_R0_O1>("S_R0_O1")));
    v.push(marked!(L_R0_O1, ops::<L_R0_O1>("L_R0_O1")));
    v.push(marked!(S_R0_O2, ops::<S_R0_O2>("S_R0_O2")));
    v.push(marked!(T_R0_O2, ops::<T_R0_O2>("T_R0_O2")));
    v.push(marked!(Y_R0_O2, ops::<Y_R0_O2>("Y_R0_O2")));
    v.push(marked!(S_R0_O3, ops::<S_R0_O3>("S_R0_O3")));
    v.push(marked!(L_R0_O3, ops::<L_R0_O3>("L_R0_O3")));
    v.push(marked!(S_R0_S0, ops::<S_R0_S0>("S_R0_S0")));
    v.push(marked!(S_R0_X0, ops::<S_R0_X0>("S_R0_X0")));
    v.push(marked!(L_R0_X0, ops::<L_R0_X0>("L_R0_X0")));
    v.push(marked!(T_R0_X0, ops::<T_R0_X0>("T_R0_X0")));
    v.push(marked!(Y_R0_X0, ops::<Y_R0_X0>("Y_R0_X0")));
    v.push(marked!(S_R0_R0, ops::<S_R0_R0>("S_R0_R0")));
    v.push(marked!(S_R0_S1, ops::<S_R0_S1>("S_R0_S1")));
    v.push(marked!(L_R0_S1, ops::<L_R0_S1>("L_R0_S1")));
    v.push(marked!(S_R0_X1, ops::<S_R0_X1>("S_R0_X1")));
    v.push(marked!(T_R0_X1, ops::<T_R0_X1>("T_R0_X1")));
    v.push(marked!(Y_R0_X1, ops::<Y_R0_X1>("Y_R0_X1")));
    v.push(marked!(S_R0_R1, ops::<S_R0_R1>("S_R0_R1")));
    v.push(marked!(L_R0_R1, ops::<L_R0_R1>("L_R0_R1")));
    v.push(marked!(S_R0_S2, ops::<S_R0_S2>("S_R0_S2")));
    v.push(marked!(S_R0_X2, ops::<S_R0_X2>("S_R0_X2")));
    v.push(marked!(L_R0_X2, ops::<L_R0_X2>("L_R0_X2")));
    v.push(marked!(T_R0_X2, ops::<T_R0_X2>("T_R0_X2")));
    v.push(marked!(Y_R0_X2, ops::<Y_R0_X2>("Y_R0_X2")));
    v.push(marked!(S_R0_R2, ops::<S_R0_R2>("S_R0_R2")));
    v.push(marked!(S_R0_S3, ops::<S_R0_S3>("S_R0_S3")));
    v.push(marked!(L_R0_S3, ops::<L_R0_S3>("L_R0_S3")));
    v.push(marked!(S_R0_X3, ops::<S_R0_X3>("S_R0_X3")));
    v.push(marked!(T_R0_X3, ops::<T_R0_X3>("T_R0_X3")));
    v.push(marked!(Y_R0_X3, ops::<Y_R0_X3>("Y_R0_X3")));
    v.push(marked!(S_R0_R3, ops::<S_R0_R3>("S_R0_R3")));
    v.push(marked!(L_R0_R3, ops::<L_R0_R3>("L_R0_R3")));
    v.push(marked!(S_I1_P0, ops::<S_I1_P0>("S_I1_P0")));
    v.push(marked!(S_I1_P1, ops::<S_I1_P1>("S_I1_P1")));
    v.push(marked!(L_I1_P1, ops::<L_I1_P1>("L_I1_P1")));
}
fn types21(v: &mut Vec<Ops>) {
    v.push(marked!(S_I1_P2, ops::<S_I1_P2>("S_I1_P2")));
    v.push(marked!(S_I1_P3, ops::<S_I1_P3>("S_I1_P3")));
    v.push(marked!(L_I1_P3, ops::<L_I1_P3>("L_I1_P3")));
    v.push(marked!(S_I1_I0, ops::<S_I1_I0>("S_I1_I0")));
    v.push(marked!(S_I1_W0, ops::<S_I1_W0>("S_I1_W0")));
    v.push(marked!(L_I1_W0, ops::<L_I1_W0>("L_I1_W0")));
    v.push(marked!(S_I1_T0, ops::<S_I1_T0>("S_I1_T0")));
    v.push(marked!(S_I1_I1, ops::<S_I1_I1>("S_I1_I1")));
    v.push(marked!(L_I1_I1, ops::<L_I1_I1>("L_I1_I1")));
    v.push(marked!(S_I1_W1, ops::<S_I1_W1>("S_I1_W1")));
    v.push(marked!(S_I1_T1, ops::<S_I1_T1>("S_I1_T1")));
    v.push(marked!(L_I1_T1, ops::<L_I1_T1>("L_I1_T1")));
    v.push(marked!(S_I1_I2, ops::<S_I1_I2>("S_I1_I2")));
    v.push(marked!(S_I1_W2, ops::<S_I1_W2>("S_I1_W2")));
    v.push(marked!(L_I1_W2, ops::<L_I1_W2>("L_I1_W2")));
    v.push(marked!(S_I1_T2, ops::<S_I1_T2>("S_I1_T2")));
    v.push(marked!(S_I1_I3, ops::<S_I1_I3>("S_I1_I3")));
    v.push(marked!(L_I1_I3, ops::<L_I1_I3>("L_I1_I3")));
    v.push(marked!(S_I1_W3, ops::<S_I1_W3>("S_I1_W3")));
    v.push(marked!(S_I1_T3, ops::<S_I1_T3>("S_I1_T3")));
    v.push(marked!(L_I1_T3, ops::<L_I1_T3>("L_I1_T3")));
    v.push(marked!(T_S1_P0, ops::<T_S1_P0>("T_S1_P0")));
    v.push(marked!(Y_S1_P0, ops::<Y_S1_P0>("Y_S1_P0")));
    v.push(marked!(S_S1_O0, ops::<S_S1_O0>("S_S1_O0")));
    v.push(marked!(L_S1_O0, ops::<L_S1_O0>("L_S1_O0")));
    v.push(marked!(S_S1_O1, ops::<S_S1_O1>("S_S1_O1")));
    v.push(marked!(T_S1_O1, ops::<T_S1_O1>("T_S1_O1")));
    v.push(marked!(Y_S1_O1, ops::<Y_S1_O1>("Y_S1_O1")));
    v.push(marked!(S_S1_O2, ops::<S_S1_O2>("S_S1_O2")));
    v.push(marked!(L_S1_O2, ops::<L_S1_O2>("L_S1_O2")));
    v.push(marked!(T_S1_P3, ops::<T_S1_P3>("T_S1_P3")));
    v.push(marked!(Y_S1_P3, ops::<Y_S1_P3>("Y_S1_P3")));
    v.push(marked!(S_S1_O3, ops::<S_S1_O3>("S_S1_O3")));
    v.push(marked!(S_S1_S0, ops::<S_S1_S0>("S_S1_S0")));
    v.push(marked!(L_S1_S0, ops::<L_S1_S0>("L_S1_S0")));
    v.push(marked!(T_S1_S0, ops::<T_S1_S0>("T_S1_S0")));
    v.push(marked!(Y_S1_S0, ops::<Y_S1_S0>("Y_S1_S0")));
    v.push(marked!(S_S1_X0, ops::<S_S1_X0>("S_S1_X0")));
    v.push(marked!(T_S1_T0, ops::<T_S1_T0>("T_S1_T0")));
    v.push(marked!(Y_S1_T0, ops::<Y_S1_T0>("Y_S1_T0")));
    v.push(marked!(S_S1_R0, ops::<S_S1_R0>("S_S1_R0")));
    v.push(marked!(L_S1_R0, ops::<L_S1_R0>("L_S1_R0")));
    v.push(marked!(S_S1_S1, ops::<S_S1_S1>("S_S1_S1")));
    v.push(marked!(T_S1_S1, ops::<T_S1_S1>("T_S1_S1")));
    v.push(marked!(Y_S1_S1, ops::<Y_S1_S1>("Y_S1_S1")));
    v.push(marked!(S_S1_X1, ops::<S_S1_X1>("S_S1_X1")));
    v.push(marked!(L_S1_X1, ops::<L_S1_X1>("L_S1_X1")));
    v.push(marked!(T_S1_T1, ops::<T_S1_T1>("T_S1_T1")));
    v.push(marked!(Y_S1_T1, ops::<Y_S1_T1>("Y_S1_T1")));
    v.push(marked!(S_S1_R1, ops::<S_S1_R1>("S_S1_R1")));
}
fn types22(v: &mut Vec<Ops>) {
    v.push(marked!(S_S1_S2, ops::<S_S1_S2>("S_S1_S2")));
    v.push(marked!(L_S1_S2, ops::<L_S1_S2>("L_S1_S2")));
    v.push(marked!(T_S1_S2, ops::<T_S1_S2>("T_S1_S2")));
    v.push(marked!(Y_S1_S2, ops::<Y_S1_S2>("Y_S1_S2")));
    v.push(marked!(S_S1_X2, ops::<S_S1_X2>("S_S1_X2")));
    v.push(marked!(T_S1_T2, ops::<T_S1_T2>("T_S1_T2")));
    v.push(marked!(Y_S1_T2, ops::<Y_S1_T2>("Y_S1_T2")));
    v.push(marked!(S_S1_R2, ops::<S_S1_R2>("S_S1_R2")));
    v.push(marked!(L_S1_R2, ops::<L_S1_R2>("L_S1_R2")));
    v.push(marked!(S_S1_S3, ops::<S_S1_S3>("S_S1_S3")));
    v.push(marked!(T_S1_S3, ops::<T_S1_S3>("T_S1_S3")));
    v.push(marked!(Y_S1_S3, ops::<Y_S1_S3>("Y_S1_S3")));
    v.push(marked!(S_S1_X3, ops::<S_S1_X3>("S_S1_X3")));
    v.push(marked!(L_S1_X3, ops::<L_S1_X3>("L_S1_X3")));
    v.push(marked!(T_S1_T3, ops::<T_S1_T3>("T_S1_T3")));
    v.push(marked!(Y_S1_T3, ops::<Y_S1_T3>("Y_S1_T3")));
    v.push(marked!(S_S1_R3, ops::<S_S1_R3>("S_S1_R3")));
    v.push(marked!(S_W1_P0, ops::<S_W1_P0>("S_W1_P0")));
    v.push(marked!(L_W1_P0, ops::<L_W1_P0>("L_W1_P0")));
    v.push(marked!(S_W1_P1, ops::<S_W1_P1>("S_W1_P1")));
    v.push(marked!(T_W1_P1, ops::<T_W1_P1>("T_W1_P1")));
    v.push(marked!(Y_W1_P1, ops::<Y_W1_P1>("Y_W1_P1")));
    v.push(marked!(S_W1_P2, ops::<S_W1_P2>("S_W1_P2")));
    v.push(marked!(L_W1_P2, ops::<L_W1_P2>("L_W1_P2")));
    v.push(marked!(T_W1_O2, ops::<T_W1_O2>("T_W1_O2")));
    v.push(marked!(Y_W1_O2, ops::<Y_W1_O2>("Y_W1_O2")));
    v.push(marked!(S_W1_P3, ops::<S_W1_P3>("S_W1_P3")));
    v.push(marked!(S_W1_I0, ops::<S_W1_I0>("S_W1_I0")));
    v.push(marked!(L_W1_I0, ops::<L_W1_I0>("L_W1_I0")));
    v.push(marked!(S_W1_W0, ops::<S_W1_W0>("S_W1_W0")));
    v.push(marked!(T_W1_X0, ops::<T_W1_X0>("T_W1_X0")));
    v.push(marked!(Y_W1_X0, ops::<Y_W1_X0>("Y_W1_X0")));
    v.push(marked!(S_W1_T0, ops::<S_W1_T0>("S_W1_T0")));
    v.push(marked!(L_W1_T0, ops::<L_W1_T0>("L_W1_T0")));
    v.push(marked!(S_W1_I1, ops::<S_W1_I1>("S_W1_I1")));
    v.push(marked!(S_W1_W1, ops::<S_W1_W1>("S_W1_W1")));
    v.push(marked!(L_W1_W1, ops::<L_W1_W1>("L_W1_W1")));
    v.push(marked!(T_W1_X1, ops::<T_W1_X1>("T_W1_X1")));
    v.push(marked!(Y_W1_X1, ops::<Y_W1_X1>("Y_W1_X1")));
    v.push(marked!(S_W1_T1, ops::<S_W1_T1>("S_W1_T1")));
    v.push(marked!(S_W1_I2, ops::<S_W1_I2>("S_W1_I2")));
    v.push(marked!(L_W1_I2, ops::<L_W1_I2>("L_W1_I2")));
    v.push(marked!(S_W1_W2, ops::<S_W1_W2>("S_W1_W2")));
    v.push(marked!(T_W1_X2, ops::<T_W1_X2>("T_W1_X2")));
    v.push(marked!(Y_W1_X2, ops::<Y_W1_X2>("Y_W1_X2")));
    v.push(marked!(S_W1_T2, ops::<S_W1_T2>("S_W1_T2")));
    v.push(marked!(L_W1_T2, ops::<L_W1_T2>("L_W1_T2")));
    v.push(marked!(S_W1_I3, ops::<S_W1_I3>("S_W1_I3")));
    v.push(marked!(S_W1_W3, ops::<S_W1_W3>("S_W1_W3")));
    v.push(marked!(L_W1_W3, ops::<L_W1_W3>("L_W1_W3")));
}
fn types23(v: &mut Vec<Ops>) {
    v.push(marked!(T_W1_X3, ops::<T_W1_X3>("T_W1_X3")));
    v.push(marked!(Y_W1_X3, ops::<Y_W1_X3>("Y_W1_X3")));
    v.push(marked!(S_W1_T3, ops::<S_W1_T3>("S_W1_T3")));
    v.push(marked!(S_X1_O0, ops::<S_X1_O0>("S_X1_O0")));
    v.push(marked!(T_X1_O0, ops::<T_X1_O0>("T_X1_O0")));
    v.push(marked!(Y_X1_O0, ops::<Y_X1_O0>("Y_X1_O0")));
    v.push(marked!(S_X1_O1, ops::<S_X1_O1>("S_X1_O1")));
    v.push(marked!(L_X1_O1, ops::<L_X1_O1>("L_X1_O1")));
    v.push(marked!(T_X1_P2, ops::<T_X1_P2>("T_X1_P2")));
    v.push(marked!(Y_X1_P2, ops::<Y_X1_P2>("Y_X1_P2")));
    v.push(marked!(S_X1_O2, ops::<S_X1_O2>("S_X1_O2")));
    v.push(marked!(S_X1_O3, ops::<S_X1_O3>("S_X1_O3")));
    v.push(marked!(L_X1_O3, ops::<L_X1_O3>("L_X1_O3")));
    v.push(marked!(T_X1_O3, ops::<T_X1_O3>("T_X1_O3")));
    v.push(marked!(Y_X1_O3, ops::<Y_X1_O3>("Y_X1_O3")));
    v.push(marked!(S_X1_S0, ops::<S_X1_S0>("S_X1_S0")));
    v.push(marked!(T_X1_W0, ops::<T_X1_W0>("T_X1_W0")));
    v.push(marked!(Y_X1_W0, ops::<Y_X1_W0>("Y_X1_W0")));
    v.push(marked!(S_X1_X0, ops::<S_X1_X0>("S_X1_X0")));
    v.push(marked!(L_X1_X0, ops::<L_X1_X0>("L_X1_X0")));
    v.push(marked!(S_X1_R0, ops::<S_X1_R0>("S_X1_R0")));
    v.push(marked!(T_X1_R0, ops::<T_X1_R0>("T_X1_R0")));
    v.push(marked!(Y_X1_R0, ops::<Y_X1_R0>("Y_X1_R0")));
    v.push(marked!(S_X1_S1, ops::<S_X1_S1>("S_X1_S1")));
    v.push(marked!(L_X1_S1, ops::<L_X1_S1>("L_X1_S1")));
    v.push(marked!(T_X1_W1, ops::<T_X1_W1>("T_X1_W1")));
    v.push(marked!(Y_X1_W1, ops::<Y_X1_W1>("Y_X1_W1")));
    v.push(marked!(S_X1_X1, ops::<S_X1_X1>("S_X1_X1")));
    v.push(marked!(S_X1_R1, ops::<S_X1_R1>("S_X1_R1")));
    v.push(marked!(L_X1_R1, ops::<L_X1_R1>("L_X1_R1")));
    v.push(marked!(T_X1_R1, ops::<T_X1_R1>("T_X1_R1")));
    v.push(marked!(Y_X1_R1, ops::<Y_X1_R1>("Y_X1_R1")));
    v.push(marked!(S_X1_S2, ops::<S_X1_S2>("S_X1_S2")));
    v.push(marked!(T_X1_W2, ops::<T_X1_W2>("T_X1_W2")));
    v.push(marked!(Y_X1_W2, ops::<Y_X1_W2>("Y_X1_W2")));
    v.push(marked!(S_X1_X2, ops::<S_X1_X2>("S_X1_X2")));
    v.push(marked!(L_X1_X2, ops::<L_X1_X2>("L_X1_X2")));
    v.push(marked!(S_X1_R2, ops::<S_X1_R2>("S_X1_R2")));
    v.push(marked!(T_X1_R2, ops::<T_X1_R2>("T_X1_R2")));
    v.push(marked!(Y_X1_R2, ops::<Y_X1_R2>("Y_X1_R2")));
    v.push(marked!(S_X1_S3, ops::<S_X1_S3>("S_X1_S3")));
    v.push(marked!(L_X1_S3, ops::<L_X1_S3>("L_X1_S3")));
    v.push(marked!(T_X1_W3, ops::<T_X1_W3>("T_X1_W3")));
    v.push(marked!(Y_X1_W3, ops::<Y_X1_W3>("Y_X1_W3")));
    v.push(marked!(S_X1_X3, ops::<S_X1_X3>("S_X1_X3")));
    v.push(marked!(S_X1_R3, ops::<S_X1_R3>("S_X1_R3")));
    v.push(marked!(L_X1_R3, ops::<L_X1_R3>("L_X1_R3")));
    v.push(marked!(T_X1_R3, ops::<T_X1_R3>("T_X1_R3")));
    v.push(marked!(Y_X1_R3, ops::<Y_X1_R3>("Y_X1_R3")));
    v.push(marked!(S_T1_P0, ops::<S_T1_P0>("S_T1_P0")));
}
fn types24(v: &mut Vec<Ops>) {
    v.push(marked!(T_T1_P0, ops::<T_T1_P0>("T_T1_P0")));
    v.push(marked!(Y_T1_P0, ops::<Y_T1_P0>("Y_T1_P0")));
    v.push(marked!(S_T1_P1, ops::<S_T1_P1>("S_T1_P1")));
    v.push(marked!(L_T1_P1, ops::<L_T1_P1>("L_T1_P1")));
    v.push(marked!(T_T1_O1, ops::<T_T1_O1>("T_T1_O1")));
    v.push(marked!(Y_T1_O1, ops::<Y_T1_O1>("Y_T1_O1")));
    v.push(marked!(S_T1_P2, ops::<S_T1_P2>("S_T1_P2")));
    v.push(marked!(S_T1_P3, ops::<S_T1_P3>("S_T1_P3")));
    v.push(marked!(L_T1_P3, ops::<L_T1_P3>("L_T1_P3")));
    v.push(marked!(T_T1_P3, ops::<T_T1_P3>("T_T1_P3")));
    v.push(marked!(Y_T1_P3, ops::<Y_T1_P3>("Y_T1_P3")));
    v.push(marked!(S_T1_I0, ops::<S_T1_I0>("S_T1_I0")));
    v.push(marked!(T_T1_S0, ops::<T_T1_S0>("T_T1_S0")));
    v.push(marked!(Y_T1_S0, ops::<Y_T1_S0>("Y_T1_S0")));
    v.push(marked!(S_T1_W0, ops::<S_T1_W0>("S_T1_W0")));
    v.push(marked!(L_T1_W0, ops::<L_T1_W0>("L_T1_W0")));
    v.push(marked!(S_T1_T0, ops::<S_T1_T0>("S_T1_T0")));
    v.push(marked!(T_T1_T0, ops::<T_T1_T0>("T_T1_T0")));
    v.push(marked!(Y_T1_T0, ops::<Y_T1_T0>("Y_T1_T0")));
    v.push(marked!(S_T1_I1, ops::<S_T1_I1>("S_T1_I1")));
    v.push(marked!(L_T1_I1, ops::<L_T1_I1>("L_T1_I1")));
    v.push(marked!(T_T1_S1, ops::<T_T1_S1>("T_T1_S1")));
    v.push(marked!(Y_T1_S1, ops::<Y_T1_S1>("Y_T1_S1")));
    v.push(marked!(S_T1_W1, ops::<S_T1_W1>("S_T1_W1")));
    v.push(marked!(S_T1_T1, ops::<S_T1_T1>("S_T1_T1")));
    v.push(marked!(L_T1_T1, ops::<L_T1_T1>("L_T1_T1")));
    v.push(marked!(T_T1_T1, ops::<T_T1_T1>("T_T1_T1")));
    v.push(marked!(Y_T1_T1, ops::<Y_T1_T1>("Y_T1_T1")));
    v.push(marked!(S_T1_I2, ops::<S_T1_I2>("S_T1_I2")));
    v.push(marked!(T_T1_S2, ops::<T_T1_S2>("T_T1_S2")));
    v.push(marked!(Y_T1_S2, ops::<Y_T1_S2>("Y_T1_S2")));
    v.push(marked!(S_T1_W2, ops::<S_T1_W2>("S_T1_W2")));
    v.push(marked!(L_T1_W2, ops::<L_T1_W2>("L_T1_W2")));
    v.push(marked!(S_T1_T2, ops::<S_T1_T2>("S_T1_T2")));
    v.push(marked!(T_T1_T2, ops::<T_T1_T2>("T_T1_T2")));
    v.push(marked!(Y_T1_T2, ops::<Y_T1_T2>("Y_T1_T2")));
    v.push(marked!(S_T1_I3, ops::<S_T1_I3>("S_T1_I3")));
    v.push(marked!(L_T1_I3, ops::<L_T1_I3>("L_T1_I3")));
    v.push(marked!(T_T1_S3, ops::<T_T1_S3>("T_T1_S3")));
    v.push(marked!(Y_T1_S3, ops::<Y_T1_S3>("Y_T1_S3")));
    v.push(marked!(S_T1_W3, ops::<S_T1_W3>("S_T1_W3")));
    v.push(marked!(S_T1_T3, ops::<S_T1_T3>("S_T1_T3")));
    v.push(marked!(L_T1_T3, ops::<L_T1_T3>("L_T1_T3")));
    v.push(marked!(T_T1_T3, ops::<T_T1_T3>("T_T1_T3")));
    v.push(marked!(Y_T1_T3, ops::<Y_T1_T3>("Y_T1_T3")));
    v.push(marked!(S_R1_O0, ops::<S_R1_O0>("S_R1_O0")));
    v.push(marked!(L_R1_O0, ops::<L_R1_O0>("L_R1_O0")));
    v.push(marked!(T_R1_P1, ops::<T_R1_P1>("T_R1_P1")));
    v.push(marked!(Y_R1_P1, ops::<Y_R1_P1>("Y_R1_P1")));
    v.push(marked!(S_R1_O1, ops::<S_R1_O1>("S_R1_O1")));
}
fn types25(v: &mut Vec<Ops>) {
    v.push(marked!(S_R1_O2, ops::<S_R1_O2>("S_R1_O2")));
    v.push(marked!(L_R1_O2, ops::<L_R1_O2>("L_R1_O2")));
    v.push(marked!(T_R1_O2, ops::<T_R1_O2>("T_R1_O2")));
    v.push(marked!(Y_R1_O2, ops::<Y_R1_O2>("Y_R1_O2")));
    v.push(marked!(S_R1_O3, ops::<S_R1_O3>("S_R1_O3")));
    v.push(marked!(S_R1_S0, ops::<S_R1_S0>("S_R1_S0")));
    v.push(marked!(L_R1_S0, ops::<L_R1_S0>("L_R1_S0")));
    v.push(marked!(S_R1_X0, ops::<S_R1_X0>("S_R1_X0")));
    v.push(marked!(T_R1_X0, ops::<T_R1_X0>("T_R1_X0")));
    v.push(marked!(Y_R1_X0, ops::<Y_R1_X0>("Y_R1_X0")));
    v.push(marked!(S_R1_R0, ops::<S_R1_R0>("S_R1_R0")));
    v.push(marked!(L_R1_R0, ops::<L_R1_R0>("L_R1_R0")));
    v.push(marked!(S_R1_S1, ops::<S_R1_S1>("S_R1_S1")));
    v.push(marked!(S_R1_X1, ops::<S_R1_X1>("S_R1_X1")));
    v.push(marked!(L_R1_X1, ops::<L_R1_X1>("L_R1_X1")));
    v.push(marked!(T_R1_X1, ops::<T_R1_X1>("T_R1_X1")));
    v.push(marked!(Y_R1_X1, ops::<Y_R1_X1>("Y_R1_X1")));
    v.push(marked!(S_R1_R1, ops::<S_R1_R1>("S_R1_R1")));
    v.push(marked!(S_R1_S2, ops::<S_R1_S2>("S_R1_S2")));
    v.push(marked!(L_R1_S2, ops::<L_R1_S2>("L_R1_S2")));
    v.push(marked!(S_R1_X2, ops::<S_R1_X2>("S_R1_X2")));
    v.push(marked!(T_R1_X2, ops::<T_R1_X2>("T_R1_X2")));
    v.push(marked!(Y_R1_X2, ops::<Y_R1_X2>("Y_R1_X2")));
    v.push(marked!(S_R1_R2, ops::<S_R1_R2>("S_R1_R2")));
    v.push(marked!(L_R1_R2, ops::<L_R1_R2>("L_R1_R2")));
    v.push(marked!(S_R1_S3, ops::<S_R1_S3>("S_R1_S3")));
    v.push(marked!(S_R1_X3, ops::<S_R1_X3>("S_R1_X3")));
    v.push(marked!(L_R1_X3, ops::<L_R1_X3>("L_R1_X3")));
    v.push(marked!(T_R1_X3, ops::<T_R1_X3>("T_R1_X3")));
    v.push(marked!(Y_R1_X3, ops::<Y_R1_X3>("Y_R1_X3")));
    v.push(marked!(S_R1_R3, ops::<S_R1_R3>("S_R1_R3")));
    v.push(marked!(S_I2_P0, ops::<S_I2_P0>("S_I2_P0")));
    v.push(marked!(L_I2_P0, ops::<L_I2_P0>("L_I2_P0")));
    v.push(marked!(S_I2_P1, ops::<S_I2_P1>("S_I2_P1")));
    v.push(marked!(S_I2_P2, ops::<S_I2_P2>("S_I2_P2")));
    v.push(marked!(L_I2_P2, ops::<L_I2_P2>("L_I2_P2")));
    v.push(marked!(S_I2_P3, ops::<S_I2_P3>("S_I2_P3")));
    v.push(marked!(S_I2_I0, ops::<S_I2_I0>("S_I2_I0")));
    v.push(marked!(L_I2_I0, ops::<L_I2_I0>("L_I2_I0")));
    v.push(marked!(S_I2_W0, ops::<S_I2_W0>("S_I2_W0")));
    v.push(marked!(S_I2_T0, ops::<S_I2_T0>("S_I2_T0")));
    v.push(marked!(L_I2_T0, ops::<L_I2_T0>("L_I2_T0")));
    v.push(marked!(S_I2_I1, ops::<S_I2_I1>("S_I2_I1")));
    v.push(marked!(S_I2_W1, ops::<S_I2_W1>("S_I2_W1")));
    v.push(marked!(L_I2_W1, ops::<L_I2_W1>("L_I2_W1")));
    v.push(marked!(S_I2_T1, ops::<S_I2_T1>("S_I2_T1")));
    v.push(marked!(S_I2_I2, ops::<S_I2_I2>("S_I2_I2")));
    v.push(marked!(L_I2_I2, ops::<L_I2_I2>("L_I2_I2")));
    v.push(marked!(S_I2_W2, ops::<S_I2_W2>("S_I2_W2")));
    v.push(marked!(S_I2_T2, ops::<S_I2_T2>("S_I2_T2")));
}
fn types26(v: &mut Vec<Ops>) {
    v.push(marked!(L_I2_T2, ops::<L_I2_T2>("L_I2_T2")));
    v.push(marked!(S_I2_I3, ops::<S_I2_I3>("S_I2_I3")));
    v.push(marked!(S_I2_W3, ops::<S_I2_W3>("S_I2_W3")));
    v.push(marked!(L_I2_W3, ops::<L_I2_W3>("L_I2_W3")));
    v.push(marked!(S_I2_T3, ops::<S_I2_T3>("S_I2_T3")));
    v.push(marked!(T_S2_P0, ops::<T_S2_P0>("T_S2_P0")));
    v.push(marked!(Y_S2_P0, ops::<Y_S2_P0>("Y_S2_P0")));
    v.push(marked!(S_S2_O0, ops::<S_S2_O0>("S_S2_O0")));
    v.push(marked!(S_S2_O1, ops::<S_S2_O1>("S_S2_O1")));
    v.push(marked!(L_S2_O1, ops::<L_S2_O1>("L_S2_O1")));
    v.push(marked!(T_S2_O1, ops::<T_S2_O1>("T_S2_O1")));
    v.push(marked!(Y_S2_O1, ops::<Y_S2_O1>("Y_S2_O1")));
    v.push(marked!(S_S2_O2, ops::<S_S2_O2>("S_S2_O2")));
    v.push(marked!(T_S2_P3, ops::<T_S2_P3>("T_S2_P3")));
    v.push(marked!(Y_S2_P3, ops::<Y_S2_P3>("Y_S2_P3")));
    v.push(marked!(S_S2_O3, ops::<S_S2_O3>("S_S2_O3")));
    v.push(marked!(L_S2_O3, ops::<L_S2_O3>("L_S2_O3")));
    v.push(marked!(S_S2_S0, ops::<S_S2_S0>("S_S2_S0")));
    v.push(marked!(T_S2_S0, ops::<T_S2_S0>("T_S2_S0")));
    v.push(marked!(Y_S2_S0, ops::<Y_S2_S0>("Y_S2_S0")));
    v.push(marked!(S_S2_X0, ops::<S_S2_X0>("S_S2_X0")));
    v.push(marked!(L_S2_X0, ops::<L_S2_X0>("L_S2_X0")));
    v.push(marked!(T_S2_T0, ops::<T_S2_T0>("T_S2_T0")));
    v.push(marked!(Y_S2_T0, ops::<Y_S2_T0>("Y_S2_T0")));
    v.push(marked!(S_S2_R0, ops::<S_S2_R0>("S_S2_R0")));
    v.push(marked!(S_S2_S1, ops::<S_S2_S1>("S_S2_S1")));
    v.push(marked!(L_S2_S1, ops::<L_S2_S1>("L_S2_S1")));
    v.push(marked!(T_S2_S1, ops::<T_S2_S1>("T_S2_S1")));
    v.push(marked!(Y_S2_S1, ops::<Y_S2_S1>("Y_S2_S1")));
    v.push(marked!(S_S2_X1, ops::<S_S2_X1>("S_S2_X1")));
    v.push(marked!(T_S2_T1, ops::<T_S2_T1>("T_S2_T1")));
    v.push(marked!(Y_S2_T1, ops::<Y_S2_T1>("Y_S2_T1")));
    v.push(marked!(S_S2_R1, ops::<S_S2_R1>("S_S2_R1")));
    v.push(marked!(L_S2_R1, ops::<L_S2_R1>("L_S2_R1")));
    v.push(marked!(S_S2_S2, ops::<S_S2_S2>("S_S2_S2")));
    v.push(marked!(T_S2_S2, ops::<T_S2_S2>("T_S2_S2")));
    v.push(marked!(Y_S2_S2, ops::<Y_S2_S2>("Y_S2_S2")));
    v.push(marked!(S_S2_X2, ops::<S_S2_X2>("S_S2_X2")));
    v.push(marked!(L_S2_X2, ops::<L_S2_X2>("L_S2_X2")));
    v.push(marked!(T_S2_T2, ops::<T_S2_T2>("T_S2_T2")));
    v.push(marked!(Y_S2_T2, ops::<Y_S2_T2>("Y_S2_T2")));
    v.push(marked!(S_S2_R2, ops::<S_S2_R2>("S_S2_R2")));
    v.push(marked!(S_S2_S3, ops::<S_S2_S3>("S_S2_S3")));
    v.push(marked!(L_S2_S3, ops::<L_S2_S3>("L_S2_S3")));
    v.push(marked!(T_S2_S3, ops::<T_S2_S3>("T_S2_S3")));
    v.push(marked!(Y_S2_S3, ops::<Y_S2_S3>("Y_S2_S3")));
    v.push(marked!(S_S2_X3, ops::<S_S2_X3>("S_S2_X3")));
    v.push(marked!(T_S2_T3, ops::<T_S2_T3>("T_S2_T3")));
    v.push(marked!(Y_S2_T3, ops::<Y_S2_T3>("Y_S2_T3")));
    v.push(marked!(S_S2_R3, ops::<S_S2_R3>("S_S2_R3")));
}
fn types27(v: &mut Vec<Ops>) {
    v.push(marked!(L_S2_R3, ops::<L_S2_R3>("L_S2_R3")));
    v.push(marked!(S_W2_P0, ops::<S_W2_P0>("S_W2_P0")));
    v.push(marked!(S_W2_P1, ops::<S_W2_P1>("S_W2_P1")));
    v.push(marked!(L_W2_P1, ops::<L_W2_P1>("L_W2_P1")));
    v.push(marked!(T_W2_P1, ops::<T_W2_P1>("T_W2_P1")));
    v.push(marked!(Y_W2_P1, ops::<Y_W2_P1>("Y_W2_P1")));
    v.push(marked!(S_W2_P2, ops::<S_W2_P2>("S_W2_P2")));
    v.push(marked!(T_W2_O2, ops::<T_W2_O2>("T_W2_O2")));
    v.push(marked!(Y_W2_O2, ops::<Y_W2_O2>("Y_W2_O2")));
    v.push(marked!(S_W2_P3, ops::<S_W2_P3>("S_W2_P3")));
    v.push(marked!(L_W2_P3, ops::<L_W2_P3>("L_W2_P3")));
    v.push(marked!(S_W2_I0, ops::<S_W2_I0>("S_W2_I0")));
    v.push(marked!(S_W2_W0, ops::<S_W2_W0>("S_W2_W0")));
    v.push(marked!(L_W2_W0, ops::<L_W2_W0>("L_W2_W0")));
    v.push(marked!(T_W2_X0, ops::<T_W2_X0>("T_W2_X0")));
    v.push(marked!(Y_W2_X0, ops::<Y_W2_X0>("Y_W2_X0")));
    v.push(marked!(S_W2_T0, ops::<S_W2_T0>("S_W2_T0")));
    v.push(marked!(S_W2_I1, ops::<S_W2_I1>("S_W2_I1")));
    v.push(marked!(L_W2_I1, ops::<L_W2_I1>("L_W2_I1")));
    v.push(marked!(S_W2_W1, ops::<S_W2_W1>("S_W2_W1")));
    v.push(marked!(T_W2_X1, ops::<T_W2_X1>("T_W2_X1")));
    v.push(marked!(Y_W2_X1, ops::<Y_W2_X1>("Y_W2_X1")));
    v.push(marked!(S_W2_T1, ops::<S_W2_T1>("S_W2_T1")));
    v.push(marked!(L_W2_T1, ops::<L_W2_T1>("L_W2_T1")));
    v.push(marked!(S_W2_I2, ops::<S_W2_I2>("S_W2_I2")));
    v.push(marked!(S_W2_W2, ops::<S_W2_W2>("S_W2_W2")));
    v.push(marked!(L_W2_W2, ops::<L_W2_W2>("L_W2_W2")));
    v.push(marked!(T_W2_X2, ops::<T_W2_X2>("T_W2_X2")));
    v.push(marked!(Y_W2_X2, ops::<Y_W2_X2>("Y_W2_X2")));
    v.push(marked!(S_W2_T2, ops::<S_W2_T2>("S_W2_T2")));
    v.push(marked!(S_W2_I3, ops::<S_W2_I3>("S_W2_I3")));
    v.push(marked!(L_W2_I3, ops::<L_W2_I3>("L_W2_I3")));
    v.push(marked!(S_W2_W3, ops::<S_W2_W3>("S_W2_W3")));
    v.push(marked!(T_W2_X3, ops::<T_W2_X3>("T_W2_X3")));
    v.push(marked!(Y_W2_X3, ops::<Y_W2_X3>("Y_W2_X3")));
    v.push(marked!(S_W2_T3, ops::<S_W2_T3>("S_W2_T3")));
    v.push(marked!(L_W2_T3, ops::<L_W2_T3>("L_W2_T3")));
    v.push(marked!(S_X2_O0, ops::<S_X2_O0>("S_X2_O0")));
    v.push(marked!(L_X2_O0, ops::<L_X2_O0>("L_X2_O0")));
    v.push(marked!(T_X2_O0, ops::<T_X2_O0>("T_X2_O0")));
    v.push(marked!(Y_X2_O0, ops::<Y_X2_O0>("Y_X2_O0")));
    v.push(marked!(S_X2_O1, ops::<S_X2_O1>("S_X2_O1")));
    v.push(marked!(T_X2_P2, ops::<T_X2_P2>("T_X2_P2")));
    v.push(marked!(Y_X2_P2, ops::<Y_X2_P2>("Y_X2_P2")));
    v.push(marked!(S_X2_O2, ops::<S_X2_O2>("S_X2_O2")));
    v.push(marked!(L_X2_O2, ops::<L_X2_O2>("L_X2_O2")));
    v.push(marked!(S_X2_O3, ops::<S_X2_O3>("S_X2_O3")));
    v.push(marked!(T_X2_O3, ops::<T_X2_O3>("T_X2_O3")));
    v.push(marked!(Y_X2_O3, ops::<Y_X2_O3>("Y_X2_O3")));
    v.push(marked!(S_X2_S0, ops::<S_X2_S0>("S_X2_S0")));
}
fn types28(v: &mut Vec<Ops>) {
    v.push(marked!(L_X2_S0, ops::<L_X2_S0>("L_X2_S0")));
    v.push(marked!(T_X2_W0, ops::<T_X2_W0>("T_X2_W0")));
    v.push(marked!(Y_X2_W0, ops::<Y_X2_W0>("Y_X2_W0")));
    v.push(marked!(S_X2_X0, ops::<S_X2_X0>("S_X2_X0")));
    v.push(marked!(S_X2_R0, ops::<S_X2_R0>("S_X2_R0")));
    v.push(marked!(L_X2_R0, ops::<L_X2_R0>("L_X2_R0")));
    v.push(marked!(T_X2_R0, ops::<T_X2_R0>("T_X2_R0")));
    v.push(marked!(Y_X2_R0, ops::<Y_X2_R0>("Y_X2_R0")));
    v.push(marked!(S_X2_S1, ops::<S_X2_S1>("S_X2_S1")));
    v.push(marked!(T_X2_W1, ops::<T_X2_W1>("T_X2_W1")));
    v.push(marked!(Y_X2_W1, ops::<Y_X2_W1>("Y_X2_W1")));
    v.push(marked!(S_X2_X1, ops::<S_X2_X1>("S_X2_X1")));
    v.push(marked!(L_X2_X1, ops::<L_X2_X1>("L_X2_X1")));
    v.push(marked!(S_X2_R1, ops::<S_X2_R1>("S_X2_R1")));
    v.push(marked!(T_X2_R1, ops::<T_X2_R1>("T_X2_R1")));
    v.push(marked!(Y_X2_R1, ops::<Y_X2_R1>("Y_X2_R1")));
    v.push(marked!(S_X2_S2, ops::<S_X2_S2>("S_X2_S2")));
    v.push(marked!(L_X2_S2, ops::<L_X2_S2>("L_X2_S2")));
    v.push(marked!(T_X2_W2, ops::<T_X2_W2>("T_X2_W2")));
    v.push(marked!(Y_X2_W2, ops::<Y_X2_W2>("Y_X2_W2")));
    v.push(marked!(S_X2_X2, ops::<S_X2_X2>("S_X2_X2")));
    v.push(marked!(S_X2_R2, ops::<S_X2_R2>("S_X2_R2")));
    v.push(marked!(L_X2_R2, ops::<L_X2_R2>("L_X2_R2")));
    v.push(marked!(T_X2_R2, ops::<T_X2_R2>("T_X2_R2")));
    v.push(marked!(Y_X2_R2, ops::<Y_X2_R2>("Y_X2_R2")));
    v.push(marked!(S_X2_S3, ops::<S_X2_S3>("S_X2_S3")));
    v.push(marked!(T_X2_W3, ops::<T_X2_W3>("T_X2_W3")));
    v.push(marked!(Y_X2_W3, ops::<Y_X2_W3>("Y_X2_W3")));
    v.push(marked!(S_X2_X3, ops::<S_X2_X3>("S_X2_X3")));
    v.push(marked!(L_X2_X3, ops::<L_X2_X3>("L_X2_X3")));
    v.push(marked!(S_X2_R3, ops::<S_X2_R3>("S_X2_R3")));
    v.push(marked!(T_X2_R3, ops::<T_X2_R3>("T_X2_R3")));
    v.push(marked!(Y_X2_R3, ops::<Y_X2_R3>("Y_X2_R3")));
    v.push(marked!(S_T2_P0, ops::<S_T2_P0>("S_T2_P0")));
    v.push(marked!(L_T2_P0, ops::<L_T2_P0>("L_T2_P0")));
    v.push(marked!(T_T2_P0, ops::<T_T2_P0>("T_T2_P0")));
    v.push(marked!(Y_T2_P0, ops::<Y_T2_P0>("Y_T2_P0")));
    v.push(marked!(S_T2_P1, ops::<S_T2_P1>("S_T2_P1")));
    v.push(marked!(T_T2_O1, ops::<T_T2_O1>("T_T2_O1")));
    v.push(marked!(Y_T2_O1, ops::<Y_T2_O1>("Y_T2_O1")));
    v.push(marked!(S_T2_P2, ops::<S_T2_P2>("S_T2_P2")));
    v.push(marked!(L_T2_P2, ops::<L_T2_P2>("L_T2_P2")));
    v.push(marked!(S_T2_P3, ops::<S_T2_P3>("S_T2_P3")));
    v.push(marked!(T_T2_P3, ops::<T_T2_P3>("T_T2_P3")));
    v.push(marked!(Y_T2_P3, ops::<Y_T2_P3>("Y_T2_P3")));
    v.push(marked!(S_T2_I0, ops::<S_T2_I0>("S_T2_I0")));
    v.push(marked!(L_T2_I0, ops::<L_T2_I0>("L_T2_I0")));
    v.push(marked!(T_T2_S0, ops::<T_T2_S0>("T_T2_S0")));
    v.push(marked!(Y_T2_S0, ops::<Y_T2_S0>("Y_T2_S0")));
    v.push(marked!(S_T2_W0, ops::<S_T2_W0>("S_T2_W0")));
}
fn types29(v: &mut Vec<Ops>) {
    v.push(marked!(S_T2_T0, ops::<S_T2_T0>("S_T2_T0")));
    v.push(marked!(L_T2_T0, ops::<L_T2_T0>("L_T2_T0")));
    v.push(marked!(T_T2_T0, ops::<T_T2_T0>("T_T2_T0")));
    v.push(marked!(Y_T2_T0, ops::<Y_T2_T0>("Y_T2_T0")));
    v.push(marked!(S_T2_I1, ops::<S_T2_I1>("S_T2_I1")));
    v.push(marked!(T_T2_S1, ops::<T_T2_S1>("T_T2_S1")));
    v.push(marked!(Y_T2_S1, ops::<Y_T2_S1>("Y_T2_S1")));
    v.push(marked!(S_T2_W1, ops::<S_T2_W1>("S_T2_W1")));
    v.push(marked!(L_T2_W1, ops::<L_T2_W1>("L_T2_W1")));
    v.push(marked!(S_T2_T1, ops::<S_T2_T1>("S_T2_T1")));
    v.push(marked!(T_T2_T1, ops::<T_T2_T1>("T_T2_T1")));
    v.push(marked!(Y_T2_T1, ops::<Y_T2_T1>("Y_T2_T1")));
    v.push(marked!(S_T2_I2, ops::<S_T2_I2>("S_T2_I2")));
    v.push(marked!(L_T2_I2, ops::<L_T2_I2>("L_T2_I2")));
    v.push(marked!(T_T2_S2, ops::<T_T2_S2>("T_T2_S2")));
    v.push(marked!(Y_T2_S2, ops::<Y_T2_S2>("Y_T2_S2")));
    v.push(marked!(S_T2_W2, ops::<S_T2_W2>("S_T2_W2")));
    v.push(marked!(S_T2_T2, ops::<S_T2_T2>("S_T2_T2")));
    v.push(marked!(L_T2_T2, ops::<L_T2_T2>("L_T2_T2")));
    v.push(marked!(T_T2_T2, ops::<T_T2_T2>("T_T2_T2")));
    v.push(marked!(Y_T2_T2, ops::<Y_T2_T2>("Y_T2_T2")));
    v.push(marked!(S_T2_I3, ops::<S_T2_I3>("S_T2_I3")));
    v.push(marked!(T_T2_S3, ops::<T_T2_S3>("T_T2_S3")));
    v.push(marked!(Y_T2_S3, ops::<Y_T2_S3>("Y_T2_S3")));
    v.push(marked!(S_T2_W3, ops::<S_T2_W3>("S_T2_W3")));
    v.push(marked!(L_T2_W3, ops::<L_T2_W3>("L_T2_W3")));
    v.push(marked!(S_T2_T3, ops::<S_T2_T3>("S_T2_T3")));
    v.push(marked!(T_T2_T3, ops::<T_T2_T3>("T_T2_T3")));
    v.push(marked!(Y_T2_T3, ops::<Y_T2_T3>("Y_T2_T3")));
    v.push(marked!(S_R2_O0, ops::<S_R2_O0>("S_R2_O0")));
    v.push(marked!(T_R2_P1, ops::<T_R2_P1>("T_R2_P1")));
    v.push(marked!(Y_R2_P1, ops::<Y_R2_P1>("Y_R2_P1")));
    v.push(marked!(S_R2_O1, ops::<S_R2_O1>("S_R2_O1")));
    v.push(marked!(L_R2_O1, ops::<L_R2_O1>("L_R2_O1")));
    v.push(marked!(S_R2_O2, ops::<S_R2_O2>("S_R2_O2")));
    v.push(marked!(T_R2_O2, ops::<T_R2_O2>("T_R2_O2")));
    v.push(marked!(Y_R2_O2, ops::<Y_R2_O2>("Y_R2_O2")));
    v.push(marked!(S_R2_O3, ops::<S_R2_O3>("S_R2_O3")));
    v.push(marked!(L_R2_O3, ops::<L_R2_O3>("L_R2_O3")));
    v.push(marked!(S_R2_S0, ops::<S_R2_S0>("S_R2_S0")));
    v.push(marked!(S_R2_X0, ops::<S_R2_X0>("S_R2_X0")));
    v.push(marked!(L_R2_X0, ops::<L_R2_X0>("L_R2_X0")));
    v.push(marked!(T_R2_X0, ops::<T_R2_X0>("T_R2_X0")));
    v.push(marked!(Y_R2_X0, ops::<Y_R2_X0>("Y_R2_X0")));
    v.push(marked!(S_R2_R0, ops::<S_R2_R0>("S_R2_R0")));
    v.push(marked!(S_R2_S1, ops::<S_R2_S1>("S_R2_S1")));
    v.push(marked!(L_R2_S1, ops::<L_R2_S1>("L_R2_S1")));
    v.push(marked!(S_R2_X1, ops::<S_R2_X1>("S_R2_X1")));
    v.push(marked!(T_R2_X1, ops::<T_R2_X1>("T_R2_X1")));
    v.push(marked!(Y_R2_X1, ops::<Y_R2_X1>("Y_R2_X1")));
}
fn types30(v: &mut Vec<Ops>) {
    v.push(marked!(S_R2_R1, ops::<S_R2_R1>("S_R2_R1")));
    v.push(marked!(L_R2_R1, ops::<L_R2_R1>("L_R2_R1")));
    v.push(marked!(S_R2_S2, ops::<S_R2_S2>("S_R2_S2")));
    v.push(marked!(S_R2_X2, ops::<S_R2_X2>("S_R2_X2")));
    v.push(marked!(L_R2_X2, ops::<L_R2_X2>("L_R2_X2")));
    v.push(marked!(T_R2_X2, ops::<T_R2_X2>("T_R2_X2")));
    v.push(marked!(Y_R2_X2, ops::<Y_R2_X2>("Y_R2_X2")));
    v.push(marked!(S_R2_R2, ops::<S_R2_R2>("S_R2_R2")));
    v.push(marked!(S_R2_S3, ops::<S_R2_S3>("S_R2_S3")));
    v.push(marked!(L_R2_S3, ops::<L_R2_S3>("L_R2_S3")));
    v.push(marked!(S_R2_X3, ops::<S_R2_X3>("S_R2_X3")));
    v.push(marked!(T_R2_X3, ops::<T_R2_X3>("T_R2_X3")));
    v.push(marked!(Y_R2_X3, ops::<Y_R2_X3>("Y_R2_X3")));
    v.push(marked!(S_R2_R3, ops::<S_R2_R3>("S_R2_R3")));
    v.push(marked!(L_R2_R3, ops::<L_R2_R3>("L_R2_R3")));
    v.push(marked!(S_I3_P0, ops::<S_I3_P0>("S_I3_P0")));
    v.push(marked!(S_I3_P1, ops::<S_I3_P1>("S_I3_P1")));
    v.push(marked!(L_I3_P1, ops::<L_I3_P1>("L_I3_P1")));
    v.push(marked!(S_I3_P2, ops::<S_I3_P2>("S_I3_P2")));
    v.push(marked!(S_I3_P3, ops::<S_I3_P3>("S_I3_P3")));
    v.push(marked!(L_I3_P3, ops::<L_I3_P3>("L_I3_P3")));
    v.push(marked!(S_I3_I0, ops::<S_I3_I0>("S_I3_I0")));
    v.push(marked!(S_I3_W0, ops::<S_I3_W0>("S_I3_W0")));
    v.push(marked!(L_I3_W0, ops::<L_I3_W0>("L_I3_W0")));
    v.push(marked!(S_I3_T0, ops::<S_I3_T0>("S_I3_T0")));
    v.push(marked!(S_I3_I1, ops::<S_I3_I1>("S_I3_I1")));
    v.push(marked!(L_I3_I1, ops::<L_I3_I1>("L_I3_I1")));
    v.push(marked!(S_I3_W1, ops::<S_I3_W1>("S_I3_W1")));
    v.push(marked!(S_I3_T1, ops::<S_I3_T1>("S_I3_T1")));
    v.push(marked!(L_I3_T1, ops::<L_I3_T1>("L_I3_T1")));
    v.push(marked!(S_I3_I2, ops::<S_I3_I2>("S_I3_I2")));
    v.push(marked!(S_I3_W2, ops::<S_I3_W2>("S_I3_W2")));
    v.push(marked!(L_I3_W2, ops::<L_I3_W2>("L_I3_W2")));
    v.push(marked!(S_I3_T2, ops::<S_I3_T2>("S_I3_T2")));
    v.push(marked!(S_I3_I3, ops::<S_I3_I3>("S_I3_I3")));
    v.push(marked!(L_I3_I3, ops::<L_I3_I3>("L_I3_I3")));
    v.push(marked!(S_I3_W3, ops::<S_I3_W3>("S_I3_W3")));
    v.push(marked!(S_I3_T3, ops::<S_I3_T3>("S_I3_T3")));
    v.push(marked!(L_I3_T3, ops::<L_I3_T3>("L_I3_T3")));
    v.push(marked!(T_S3_P0, ops::<T_S3_P0>("T_S3_P0")));
    v.push(marked!(Y_S3_P0, ops::<Y_S3_P0>("Y_S3_P0")));
    v.push(marked!(S_S3_O0, ops::<S_S3_O0>("S_S3_O0")));
    v.push(marked!(L_S3_O0, ops::<L_S3_O0>("L_S3_O0")));
    v.push(marked!(S_S3_O1, ops::<S_S3_O1>("S_S3_O1")));
    v.push(marked!(T_S3_O1, ops::<T_S3_O1>("T_S3_O1")));
    v.push(marked!(Y_S3_O1, ops::<Y_S3_O1>("Y_S3_O1")));
    v.push(marked!(S_S3_O2, ops::<S_S3_O2>("S_S3_O2")));
    v.push(marked!(L_S3_O2, ops::<L_S3_O2>("L_S3_O2")));
    v.push(marked!(T_S3_P3, ops::<T_S3_P3>("T_S3_P3")));
    v.push(marked!(Y_S3_P3, ops::<Y_S3_P3>("Y_S3_P3")));
}
fn types31(v: &mut Vec<Ops>) {
    v.push(marked!(S_S3_O3, ops::<S_S3_O3>("S_S3_O3")));
    v.push(marked!(S_S3_S0, ops::<S_S3_S0>("S_S3_S0")));
    v.push(marked!(L_S3_S0, ops::<L_S3_S0>("L_S3_S0")));
    v.push(marked!(T_S3_S0, ops::<T_S3_S0>("T_S3_S0")));
    v.push(marked!(Y_S3_S0, ops::<Y_S3_S0>("Y_S3_S0")));
    v.push(marked!(S_S3_X0, ops::<S_S3_X0>("S_S3_X0")));
    v.push(marked!(T_S3_T0, ops::<T_S3_T0>("T_S3_T0")));
    v.push(marked!(Y_S3_T0, ops::<Y_S3_T0>("Y_S3_T0")));
    v.push(marked!(S_S3_R0, ops::<S_S3_R0>("S_S3_R0")));
    v.push(marked!(L_S3_R0, ops::<L_S3_R0>("L_S3_R0")));
    v.push(marked!(S_S3_S1, ops::<S_S3_S1>("S_S3_S1")));
    v.push(marked!(T_S3_S1, ops::<T_S3_S1>("T_S3_S1")));
    v.push(marked!(Y_S3_S1, ops::<Y_S3_S1>("Y_S3_S1")));
    v.push(marked!(S_S3_X1, ops::<S_S3_X1>("S_S3_X1")));
    v.push(marked!(L_S3_X1, ops::<L_S3_X1>("L_S3_X1")));
    v.push(marked!(T_S3_T1, ops::<T_S3_T1>("T_S3_T1")));
    v.push(marked!(Y_S3_T1, ops::<Y_S3_T1>("Y_S3_T1")));
    v.push(marked!(S_S3_R1, ops::<S_S3_R1>("S_S3_R1")));
    v.push(marked!(S_S3_S2, ops::<S_S3_S2>("S_S3_S2")));
    v.push(marked!(L_S3_S2, ops::<L_S3_S2>("L_S3_S2")));
    v.push(marked!(T_S3_S2, ops::<T_S3_S2>("T_S3_S2")));
    v.push(marked!(Y_S3_S2, ops::<Y_S3_S2>("Y_S3_S2")));
    v.push(marked!(S_S3_X2, ops::<S_S3_X2>("S_S3_X2")));
    v.push(marked!(T_S3_T2, ops::<T_S3_T2>("T_S3_T2")));
    v.push(marked!(Y_S3_T2, ops::<Y_S3_T2>("Y_S3_T2")));
    v.push(marked!(S_S3_R2, ops::<S_S3_R2>("S_S3_R2")));
    v.push(marked!(L_S3_R2, ops::<L_S3_R2>("L_S3_R2")));
    v.push(marked!(S_S3_S3, ops::<S_S3_S3>("S_S3_S3")));
    v.push(marked!(T_S3_S3, ops::<T_S3_S3>("T_S3_S3")));
    v.push(marked!(Y_S3_S3, ops::<Y_S3_S3>("Y_S3_S3")));
    v.push(marked!(S_S3_X3, ops::<S_S3_X3>("S_S3_X3")));
    v.push(marked!(L_S3_X3, ops::<L_S3_X3>("L_S3_X3")));
    v.push(marked!(T_S3_T3, ops::<T_S3_T3>("T_S3_T3")));
    v.push(marked!(Y_S3_T3, ops::<Y_S3_T3>("Y_S3_T3")));
    v.push(marked!(S_S3_R3, ops::<S_S3_R3>("S_S3_R3")));
    v.push(marked!(S_W3_P0, ops::<S_W3_P0>("S_W3_P0")));
    v.push(marked!(L_W3_P0, ops::<L_W3_P0>("L_W3_P0")));
    v.push(marked!(S_W3_P1, ops::<S_W3_P1>("S_W3_P1")));
    v.push(marked!(T_W3_P1, ops::<T_W3_P1>("T_W3_P1")));
    v.push(marked!(Y_W3_P1, ops::<Y_W3_P1>("Y_W3_P1")));
    v.push(marked!(S_W3_P2, ops::<S_W3_P2>("S_W3_P2")));
    v.push(marked!(L_W3_P2, ops::<L_W3_P2>("L_W3_P2")));
    v.push(marked!(T_W3_O2, ops::<T_W3_O2>("T_W3_O2")));
    v.push(marked!(Y_W3_O2, ops::<Y_W3_O2>("Y_W3_O2")));
    v.push(marked!(S_W3_P3, ops::<S_W3_P3>("S_W3_P3")));
    v.push(marked!(S_W3_I0, ops::<S_W3_I0>("S_W3_I0")));
    v.push(marked!(L_W3_I0, ops::<L_W3_I0>("L_W3_I0")));
    v.push(marked!(S_W3_W0, ops::<S_W3_W0>("S_W3_W0")));
    v.push(marked!(T_W3_X0, ops::<T_W3_X0>("T_W3_X0")));
    v.push(marked!(Y_W3_X0, ops::<Y_W3_X0>("Y_W3_X0")));
}
fn types32(v: &mut Vec<Ops>) {
    v.push(marked!(S_W3_T0, ops::<S_W3_T0>("S_W3_T0")));
    v.push(marked!(L_W3_T0, ops::<L_W3_T0>("L_W3_T0")));
    v.push(marked!(S_W3_I1, ops::<S_W3_I1>("S_W3_I1")));
    v.push(marked!(S_W3_W1, ops::<S_W3_W1>("S_W3_W1")));
    v.push(marked!(L_W3_W1, ops::<L_W3_W1>("L_W3_W1")));
    v.push(marked!(T_W3_X1, ops::<T_W3_X1>("T_W3_X1")));
    v.push(marked!(Y_W3_X1, ops::<Y_W3_X1>("Y_W3_X1")));
    v.push(marked!(S_W3_T1, ops::<S_W3_T1>("S_W3_T1")));
    v.push(marked!(S_W3_I2, ops::<S_W3_I2>("S_W3_I2")));
    v.push(marked!(L_W3_I2, ops::<L_W3_I2>("L_W3_I2")));
    v.push(marked!(S_W3_W2, ops::<S_W3_W2>("S_W3_W2")));
    v.push(marked!(T_W3_X2, ops::<T_W3_X2>("T_W3_X2")));
    v.push(marked!(Y_W3_X2, ops::<Y_W3_X2>("Y_W3_X2")));
    v.push(marked!(S_W3_T2, ops::<S_W3_T2>("S_W3_T2")));
    v.push(marked!(L_W3_T2, ops::<L_W3_T2>("L_W3_T2")));
    v.push(marked!(S_W3_I3, ops::<S_W3_I3>("S_W3_I3")));
    v.push(marked!(S_W3_W3, ops::<S_W3_W3>("S_W3_W3")));
    v.push(marked!(L_W3_W3, ops::<L_W3_W3>("L_W3_W3")));
    v.push(marked!(T_W3_X3, ops::<T_W3_X3>("T_W3_X3")));
    v.push(marked!(Y_W3_X3, ops::<Y_W3_X3>("Y_W3_X3")));
    v.push(marked!(S_W3_T3, ops::<S_W3_T3>("S_W3_T3")));
    v.push(marked!(S_X3_O0, ops::<S_X3_O0>("S_X3_O0")));
    v.push(marked!(T_X3_O0, ops::<T_X3_O0>("T_X3_O0")));
    v.push(marked!(Y_X3_O0, ops::<Y_X3_O0>("Y_X3_O0")));
    v.push(marked!(S_X3_O1, ops::<S_X3_O1>("S_X3_O1")));
    v.push(marked!(L_X3_O1, ops::<L_X3_O1>("L_X3_O1")));
    v.push(marked!(T_X3_P2, ops::<T_X3_P2>("T_X3_P2")));
    v.push(marked!(Y_X3_P2, ops::<Y_X3_P2>("Y_X3_P2")));
    v.push(marked!(S_X3_O2, ops::<S_X3_O2>("S_X3_O2")));
    v.push(marked!(S_X3_O3, ops::<S_X3_O3>("S_X3_O3")));
    v.push(marked!(L_X3_O3, ops::<L_X3_O3>("L_X3_O3")));
    v.push(marked!(T_X3_O3, ops::<T_X3_O3>("T_X3_O3")));
    v.push(marked!(Y_X3_O3, ops::<Y_X3_O3>("Y_X3_O3")));
    v.push(marked!(S_X3_S0, ops::<S_X3_S0>("S_X3_S0")));
    v.push(marked!(T_X3_W0, ops::<T_X3_W0>("T_X3_W0")));
    v.push(marked!(Y_X3_W0, ops::<Y_X3_W0>("Y_X3_W0")));
    v.push(marked!(S_X3_X0, ops::<S_X3_X0>("S_X3_X0")));
    v.push(marked!(L_X3_X0, ops::<L_X3_X0>("L_X3_X0")));
    v.push(marked!(S_X3_R0, ops::<S_X3_R0>("S_X3_R0")));
    v.push(marked!(T_X3_R0, ops::<T_X3_R0>("T_X3_R0")));
    v.push(marked!(Y_X3_R0, ops::<Y_X3_R0>("Y_X3_R0")));
    v.push(marked!(S_X3_S1, ops::<S_X3_S1>("S_X3_S1")));
    v.push(marked!(L_X3_S1, ops::<L_X3_S1>("L_X3_S1")));
    v.push(marked!(T_X3_W1, ops::<T_X3_W1>("T_X3_W1")));
    v.push(marked!(Y_X3_W1, ops::<Y_X3_W1>("Y_X3_W1")));
    v.push(marked!(S_X3_X1, ops::<S_X3_X1>("S_X3_X1")));
    v.push(marked!(S_X3_R1, ops::<S_X3_R1>("S_X3_R1")));
    v.push(marked!(L_X3_R1, ops::<L_X3_R1>("L_X3_R1")));
    v.push(marked!(T_X3_R1, ops::<T_X3_R1>("T_X3_R1")));
    v.push(marked!(Y_X3_R1, ops::<Y_X3_R1>("Y_X3_R1")));
}
fn types33(v: &mut Vec<Ops>) {
    v.push(marked!(S_X3_S2, ops::<S_X3_S2>("S_X3_S2")));
    v.push(marked!(T_X3_W2, ops::<T_X3_W2>("T_X3_W2")));
    v.push(marked!(Y_X3_W2, ops::<Y_X3_W2>("Y_X3_W2")));
    v.push(marked!(S_X3_X2, ops::<S_X3_X2>("S_X3_X2")));
    v.push(marked!(L_X3_X2, ops::<L_X3_X2>("L_X3_X2")));
    v.push(marked!(S_X3_R2, ops::<S_X3_R2>("S_X3_R2")));
    v.push(marked!(T_X3_R2, ops::<T_X3_R2>("T_X3_R2")));
    v.push(marked!(Y_X3_R2, ops::<Y_X3_R2>("Y_X3_R2")));
    v.push(marked!(S_X3_S3, ops::<S_X3_S3>("S_X3_S3")));
    v.push(marked!(L_X3_S3, ops::<L_X3_S3>("L_X3_S3")));
    v.push(marked!(T_X3_W3, ops::<T_X3_W3>("T_X3_W3")));
    v.push(marked!(Y_X3_W3, ops::<Y_X3_W3>("Y_X3_W3")));
    v.push(marked!(S_X3_X3, ops::<S_X3_X3>("S_X3_X3")));
    v.push(marked!(S_X3_R3, ops::<S_X3_R3>("S_X3_R3")));
    v.push(marked!(L_X3_R3, ops::<L_X3_R3>("L_X3_R3")));
    v.push(marked!(T_X3_R3, ops::<T_X3_R3>("T_X3_R3")));
    v.push(marked!(Y_X3_R3, ops::<Y_X3_R3>("Y_X3_R3")));
    v.push(marked!(S_T3_P0, ops::<S_T3_P0>("S_T3_P0")));
    v.push(marked!(T_T3_P0, ops::<T_T3_P0>("T_T3_P0")));
    v.push(marked!(Y_T3_P0, ops::<Y_T3_P0>("Y_T3_P0")));
    v.push(marked!(S_T3_P1, ops::<S_T3_P1>("S_T3_P1")));
    v.push(marked!(L_T3_P1, ops::<L_T3_P1>("L_T3_P1")));
    v.push(marked!(T_T3_O1, ops::<T_T3_O1>("T_T3_O1")));
    v.push(marked!(Y_T3_O1, ops::<Y_T3_O1>("Y_T3_O1")));
    v.push(marked!(S_T3_P2, ops::<S_T3_P2>("S_T3_P2")));
    v.push(marked!(S_T3_P3, ops::<S_T3_P3>("S_T3_P3")));
    v.push(marked!(L_T3_P3, ops::<L_T3_P3>("L_T3_P3")));
    v.push(marked!(T_T3_P3, ops::<T_T3_P3>("T_T3_P3")));
    v.push(marked!(Y_T3_P3, ops::<Y_T3_P3>("Y_T3_P3")));
    v.push(marked!(S_T3_I0, ops::<S_T3_I0>("S_T3_I0")));
    v.push(marked!(T_T3_S0, ops::<T_T3_S0>("T_T3_S0")));
    v.push(marked!(Y_T3_S0, ops::<Y_T3_S0>("Y_T3_S0")));
    v.push(marked!(S_T3_W0, ops::<S_T3_W0>("S_T3_W0")));
    v.push(marked!(L_T3_W0, ops::<L_T3_W0>("L_T3_W0")));
    v.push(marked!(S_T3_T0, ops::<S_T3_T0>("S_T3_T0")));
    v.push(marked!(T_T3_T0, ops::<T_T3_T0>("T_T3_T0")));
    v.push(marked!(Y_T3_T0, ops::<Y_T3_T0>("Y_T3_T0")));
    v.push(marked!(S_T3_I1, ops::<S_T3_I1>("S_T3_I1")));
    v.push(marked!(L_T3_I1, ops::<L_T3_I1>("L_T3_I1")));
    v.push(marked!(T_T3_S1, ops::<T_T3_S1>("T_T3_S1")));
    v.push(marked!(Y_T3_S1, ops::<Y_T3_S1>("Y_T3_S1")));
    v.push(marked!(S_T3_W1, ops::<S_T3_W1>("S_T3_W1")));
    v.push(marked!(S_T3_T1, ops::<S_T3_T1>("S_T3_T1")));
    v.push(marked!(L_T3_T1, ops::<L_T3_T1>("L_T3_T1")));
    v.push(marked!(T_T3_T1, ops::<T_T3_T1>("T_T3_T1")));
    v.push(marked!(Y_T3_T1, ops::<Y_T3_T1>("Y_T3_T1")));
    v.push(marked!(S_T3_I2, ops::<S_T3_I2>("S_T3_I2")));
    v.push(marked!(T_T3_S2, ops::<T_T3_S2>("T_T3_S2")));
    v.push(marked!(Y_T3_S2, ops::<Y_T3_S2>("Y_T3_S2")));
    v.push(marked!(S_T3_W2, ops::<S_T3_W2>("S_T3_W2")));
}
fn types34(v: &mut Vec<Ops>) {
    v.push(marked!(L_T3_W2, ops::<L_T3_W2>("L_T3_W2")));
    v.push(marked!(S_T3_T2, ops::<S_T3_T2>("S_T3_T2")));
    v.push(marked!(T_T3_T2, ops::<T_T3_T2>("T_T3_T2")));
    v.push(marked!(Y_T3_T2, ops::<Y_T3_T2>("Y_T3_T2")));
    v.push(marked!(S_T3_I3, ops::<S_T3_I3>("S_T3_I3")));
    v.push(marked!(L_T3_I3, ops::<L_T3_I3>("L_T3_I3")));
    v.push(marked!(T_T3_S3, ops::<T_T3_S3>("T_T3_S3")));
    v.push(marked!(Y_T3_S3, ops::<Y_T3_S3>("Y_T3_S3")));
    v.push(marked!(S_T3_W3, ops::<S_T3_W3>("S_T3_W3")));
    v.push(marked!(S_T3_T3, ops::<S_T3_T3>("S_T3_T3")));
    v.push(marked!(L_T3_T3, ops::<L_T3_T3>("L_T3_T3")));
    v.push(marked!(T_T3_T3, ops::<T_T3_T3>("T_T3_T3")));
    v.push(marked!(Y_T3_T3, ops::<Y_T3_T3>("Y_T3_T3")));
    v.push(marked!(S_R3_O0, ops::<S_R3_O0>("S_R3_O0")));
    v.push(marked!(L_R3_O0, ops::<L_R3_O0>("L_R3_O0")));
    v.push(marked!(T_R3_P1, ops::<T_R3_P1>("T_R3_P1")));
    v.push(marked!(Y_R3_P1, ops::<Y_R3_P1>("Y_R3_P1")));
    v.push(marked!(S_R3_O1, ops::<S_R3_O1>("S_R3_O1")));
    v.push(marked!(S_R3_O2, ops::<S_R3_O2>("S_R3_O2")));
    v.push(marked!(L_R3_O2, ops::<L_R3_O2>("L_R3_O2")));
    v.push(marked!(T_R3_O2, ops::<T_R3_O2>("T_R3_O2")));
    v.push(marked!(Y_R3_O2, ops::<Y_R3_O2>("Y_R3_O2")));
    v.push(marked!(S_R3_O3, ops::<S_R3_O3>("S_R3_O3")));
    v.push(marked!(S_R3_S0, ops::<S_R3_S0>("S_R3_S0")));
    v.push(marked!(L_R3_S0, ops::<L_R3_S0>("L_R3_S0")));
    v.push(marked!(S_R3_X0, ops::<S_R3_X0>("S_R3_X0")));
    v.push(marked!(T_R3_X0, ops::<T_R3_X0>("T_R3_X0")));
    v.push(marked!(Y_R3_X0, ops::<Y_R3_X0>("Y_R3_X0")));
    v.push(marked!(S_R3_R0, ops::<S_R3_R0>("S_R3_R0")));
    v.push(marked!(L_R3_R0, ops::<L_R3_R0>("L_R3_R0")));
    v.push(marked!(S_R3_S1, ops::<S_R3_S1>("S_R3_S1")));
    v.push(marked!(S_R3_X1, ops::<S_R3_X1>("S_R3_X1")));
    v.push(marked!(L_R3_X1, ops::<L_R3_X1>("L_R3_X1")));
    v.push(marked!(T_R3_X1, ops::<T_R3_X1>("T_R3_X1")));
    v.push(marked!(Y_R3_X1, ops::<Y_R3_X1>("Y_R3_X1")));
    v.push(marked!(S_R3_R1, ops::<S_R3_R1>("S_R3_R1")));
    v.push(marked!(S_R3_S2, ops::<S_R3_S2>("S_R3_S2")));
    v.push(marked!(L_R3_S2, ops::<L_R3_S2>("L_R3_S2")));
    v.push(marked!(S_R3_X2, ops::<S_R3_X2>("S_R3_X2")));
    v.push(marked!(T_R3_X2, ops::<T_R3_X2>("T_R3_X2")));
    v.push(marked!(Y_R3_X2, ops::<Y_R3_X2>("Y_R3_X2")));
    v.push(marked!(S_R3_R2, ops::<S_R3_R2>("S_R3_R2")));
    v.push(marked!(L_R3_R2, ops::<L_R3_R2>("L_R3_R2")));
    v.push(marked!(S_R3_S3, ops::<S_R3_S3>("S_R3_S3")));
    v.push(marked!(S_R3_X3, ops::<S_R3_X3>("S_R3_X3")));
    v.push(marked!(L_R3_X3, ops::<L_R3_X3>("L_R3_X3")));
    v.push(marked!(T_R3_X3, ops::<T_R3_X3>("T_R3_X3")));
    v.push(marked!(Y_R3_X3, ops::<Y_R3_X3>("Y_R3_X3")));
    v.push(marked!(S_R3_R3, ops::<S_R3_R3>("S_R3_R3")));
    v.push(marked!(Many, ops::<Many>("Many")));
}
fn types35(v: &mut Vec<Ops>) {
    v.push(marked!(ManyT, ops::<ManyT>("ManyT")));
    v.push(marked!(WT0, ops::<WT0>("WT0")));
    v.push(marked!(WN0, ops::<WN0>("WN0")));
    v.push(marked!(SW0, ops::<SW0>("SW0")));
    v.push(marked!(AW0, ops::<AW0>("AW0")));
    v.push(marked!(Vec<WT0>, ops::<Vec<WT0>>("Vec<WT0>")));
    v.push(marked!(Option<WN0>, ops::<Option<WN0>>("Option<WN0>")));
    v.push(marked!(BTreeMap<u8, WT0>, ops::<BTreeMap<u8, WT0>>("BTreeMap<u8, WT0>")));
    v.push(marked!((WT0, WN0), ops::<(WT0, WN0)>("(WT0, WN0)")));
    v.push(marked!(WT1, ops::<WT1>("WT1")));
    v.push(marked!(WN1, ops::<WN1>("WN1")));
    v.push(marked!(SW1, ops::<SW1>("SW1")));
    v.push(marked!(AW1, ops::<AW1>("AW1")));
    v.push(marked!(Vec<WT1>, ops::<Vec<WT1>>("Vec<WT1>")));
    v.push(marked!(Option<WN1>, ops::<Option<WN1>>("Option<WN1>")));
    v.push(marked!(BTreeMap<u8, WT1>, ops::<BTreeMap<u8, WT1>>("BTreeMap<u8, WT1>")));
    v.push(marked!((WT1, WN1), ops::<(WT1, WN1)>("(WT1, WN1)")));
    v.push(marked!(WT2, ops::<WT2>("WT2")));
    v.push(marked!(WN2, ops::<WN2>("WN2")));
    v.push(marked!(SW2, ops::<SW2>("SW2")));
    v.push(marked!(AW2, ops::<AW2>("AW2")));
    v.push(marked!(Vec<WT2>, ops::<Vec<WT2>>("Vec<WT2>")));
    v.push(marked!(Option<WN2>, ops::<Option<WN2>>("Option<WN2>")));
    v.push(marked!(BTreeMap<u8, WT2>, ops::<BTreeMap<u8, WT2>>("BTreeMap<u8, WT2>")));
    v.push(marked!((WT2, WN2), ops::<(WT2, WN2)>("(WT2, WN2)")));
    v.push(marked!(WT3, ops::<WT3>("WT3")));
    v.push(marked!(WN3, ops::<WN3>("WN3")));
    v.push(marked!(SW3, ops::<SW3>("SW3")));
    v.push(marked!(AW3, ops::<AW3>("AW3")));
    v.push(marked!(Vec<WT3>, ops::<Vec<WT3>>("Vec<WT3>")));
    v.push(marked!(Option<WN3>, ops::<Option<WN3>>("Option<WN3>")));
    v.push(marked!(BTreeMap<u8, WT3>, ops::<BTreeMap<u8, WT3>>("BTreeMap<u8, WT3>")));
    v.push(marked!((WT3, WN3), ops::<(WT3, WN3)>("(WT3, WN3)")));
    v.push(marked!(WT4, ops::<WT4>("WT4")));
    v.push(marked!(WN4, ops::<WN4>("WN4")));
    v.push(marked!(SW4, ops::<SW4>("SW4")));
    v.push(marked!(AW4, ops::<AW4>("AW4")));
    v.push(marked!(Vec<WT4>, ops::<Vec<WT4>>("Vec<WT4>")));
    v.push(marked!(Option<WN4>, ops::<Option<WN4>>("Option<WN4>")));
    v.push(marked!(BTreeMap<u8, WT4>, ops::<BTreeMap<u8, WT4>>("BTreeMap<u8, WT4>")));
    v.push(marked!((WT4, WN4), ops::<(WT4, WN4)>("(WT4, WN4)")));
    v.push(marked!(WT5, ops::<WT5>("WT5")));
    v.push(marked!(WN5, ops::<WN5>("WN5")));
    v.push(marked!(SW5, ops::<SW5>("SW5")));
    v.push(marked!(AW5, ops::<AW5>("AW5")));
    v.push(marked!(Vec<WT5>, ops::<Vec<WT5>>("Vec<WT5>")));
    v.push(marked!(Option<WN5>, ops::<Option<WN5>>("Option<WN5>")));
    v.push(marked!(BTreeMap<u8, WT5>, ops::<BTreeMap<u8, WT5>>("BTreeMap<u8, WT5>")));
    v.push(marked!((WT5, WN5), ops::<(WT5, WN5)>("(WT5, WN5)")));
    v.push(marked!(WT6, ops::<WT6>("WT6")));
}
fn types36(v: &mut Vec<Ops>) {
    v.push(marked!(WN6, ops::<WN6>("WN6")));
    v.push(marked!(SW6, ops::<SW6>("SW6")));
    v.push(marked!(AW6, ops::<AW6>("AW6")));
    v.push(marked!(Vec<WT6>, ops::<Vec<WT6>>("Vec<WT6>")));
    v.push(marked!(Option<WN6>, ops::<Option<WN6>>("Option<WN6>")));
    v.push(marked!(BTreeMap<u8, WT6>, ops::<BTreeMap<u8, WT6>>("BTreeMap<u8, WT6>")));
    v.push(marked!((WT6, WN6), ops::<(WT6, WN6)>("(WT6, WN6)")));
    v.push(marked!(WT7, ops::<WT7>("WT7")));
    v.push(marked!(WN7, ops::<WN7>("WN7")));
    v.push(marked!(SW7, ops::<SW7>("SW7")));
    v.push(marked!(AW7, ops::<AW7>("AW7")));
    v.push(marked!(Vec<WT7>, ops::<Vec<WT7>>("Vec<WT7>")));
    v.push(marked!(Option<WN7>, ops::<Option<WN7>>("Option<WN7>")));
    v.push(marked!(BTreeMap<u8, WT7>, ops::<BTreeMap<u8, WT7>>("BTreeMap<u8, WT7>")));
    v.push(marked!((WT7, WN7), ops::<(WT7, WN7)>("(WT7, WN7)")));
    v.push(marked!(WT8, ops::<WT8>("WT8")));
    v.push(marked!(WN8, ops::<WN8>("WN8")));
    v.push(marked!(SW8, ops::<SW8>("SW8")));
    v.push(marked!(AW8, ops::<AW8>("AW8")));
    v.push(marked!(Vec<WT8>, ops::<Vec<WT8>>("Vec<WT8>")));
    v.push(marked!(Option<WN8>, ops::<Option<WN8>>("Option<WN8>")));
    v.push(marked!(BTreeMap<u8, WT8>, ops::<BTreeMap<u8, WT8>>("BTreeMap<u8, WT8>")));
    v.push(marked!((WT8, WN8), ops::<(WT8, WN8)>("(WT8, WN8)")));
    v.push(marked!(WT9, ops::<WT9>("WT9")));
    v.push(marked!(WN9, ops::<WN9>("WN9")));
    v.push(marked!(SW9, ops::<SW9>("SW9")));
    v.push(marked!(AW9, ops::<AW9>("AW9")));
    v.push(marked!(Vec<WT9>, ops::<Vec<WT9>>("Vec<WT9>")));
    v.push(marked!(Option<WN9>, ops::<Option<WN9>>("Option<WN9>")));
    v.push(marked!(BTreeMap<u8, WT9>, ops::<BTreeMap<u8, WT9>>("BTreeMap<u8, WT9>")));
    v.push(marked!((WT9, WN9), ops::<(WT9, WN9)>("(WT9, WN9)")));
    v.push(marked!(WT10, ops::<WT10>("WT10")));
    v.push(marked!(WN10, ops::<WN10>("WN10")));
    v.push(marked!(SW10, ops::<SW10>("SW10")));
    v.push(marked!(AW10, ops::<AW10>("AW10")));
    v.push(marked!(Vec<WT10>, ops::<Vec<WT10>>("Vec<WT10>")));
    v.push(marked!(Option<WN10>, ops::<Option<WN10>>("Option<WN10>")));
    v.push(marked!(BTreeMap<u8, WT10>, ops::<BTreeMap<u8, WT10>>("BTreeMap<u8, WT10>")));
    v.push(marked!((WT10, WN10), ops::<(WT10, WN10)>("(WT10, WN10)")));
    v.push(marked!(H0, ops::<H0>("H0")));
    v.push(marked!(HT0, ops::<HT0>("HT0")));
    v.push(marked!(HO0, ops::<HO0>("HO0")));
    v.push(marked!(H1, ops::<H1>("H1")));
    v.push(marked!(HT1, ops::<HT1>("HT1")));
    v.push(marked!(HO1, ops::<HO1>("HO1")));
    v.push(marked!(H2, ops::<H2>("H2")));
    v.push(marked!(HT2, ops::<HT2>("HT2")));
    v.push(marked!(H3, ops::<H3>("H3")));
    v.push(marked!(HT3, ops::<HT3>("HT3")));
    v.push(marked!(H4, ops::<H4>("H4")));
}
fn types37(v: &mut Vec<Ops>) {
    v.push(marked!(HT4, ops::<HT4>("HT4")));
    v.push(marked!(H5, ops::<H5>("H5")));
    v.push(marked!(HT5, ops::<HT5>("HT5")));
    v.push(marked!(HO5, ops::<HO5>("HO5")));
    v.push(marked!(H6, ops::<H6>("H6")));
    v.push(marked!(HT6, ops::<HT6>("HT6")));
    v.push(marked!(HO6, ops::<HO6>("HO6")));
    v.push(marked!(H7, ops::<H7>("H7")));
    v.push(marked!(HT7, ops::<HT7>("HT7")));
    v.push(marked!(HO7, ops::<HO7>("HO7")));
    v.push(marked!(E_NewP0, ops::<E_NewP0>("E_NewP0")));
    v.push(marked!(U_NewP0, enc_ops::<U_NewP0>("U_NewP0")));
    v.push(marked!(D_NewP0, ops::<D_NewP0>("D_NewP0")));
    v.push(marked!(E_TwoP0, ops::<E_TwoP0>("E_TwoP0")));
    v.push(marked!(E_RecP0, ops::<E_RecP0>("E_RecP0")));
    v.push(marked!(G_RecP0, ops::<G_RecP0>("G_RecP0")));
    v.push(marked!(M_RecP0, ops::<M_RecP0>("M_RecP0")));
    v.push(marked!(E_ArrP0, ops::<E_ArrP0>("E_ArrP0")));
    v.push(marked!(U_ArrP0, enc_ops::<U_ArrP0>("U_ArrP0")));
    v.push(marked!(D_ArrP0, ops::<D_ArrP0>("D_ArrP0")));
    v.push(marked!(E_UnkP0, ops::<E_UnkP0>("E_UnkP0")));
    v.push(marked!(G_UnkP0, ops::<G_UnkP0>("G_UnkP0")));
    v.push(marked!(M_UnkP0, ops::<M_UnkP0>("M_UnkP0")));
    v.push(marked!(E_TwoO0, ops::<E_TwoO0>("E_TwoO0")));
    v.push(marked!(U_TwoO0, enc_ops::<U_TwoO0>("U_TwoO0")));
    v.push(marked!(D_TwoO0, ops::<D_TwoO0>("D_TwoO0")));
    v.push(marked!(E_RecO0, ops::<E_RecO0>("E_RecO0")));
    v.push(marked!(G_RecO0, ops::<G_RecO0>("G_RecO0")));
    v.push(marked!(M_RecO0, ops::<M_RecO0>("M_RecO0")));
    v.push(marked!(E_ArrO0, ops::<E_ArrO0>("E_ArrO0")));
    v.push(marked!(E_UnkO0, ops::<E_UnkO0>("E_UnkO0")));
    v.push(marked!(U_UnkO0, enc_ops::<U_UnkO0>("U_UnkO0")));
    v.push(marked!(D_UnkO0, ops::<D_UnkO0>("D_UnkO0")));
    v.push(marked!(G_UnkO0, ops::<G_UnkO0>("G_UnkO0")));
    v.push(marked!(M_UnkO0, ops::<M_UnkO0>("M_UnkO0")));
    v.push(marked!(E_NewL0, ops::<E_NewL0>("E_NewL0")));
    v.push(marked!(E_TwoL0, ops::<E_TwoL0>("E_TwoL0")));
    v.push(marked!(E_RecL0, ops::<E_RecL0>("E_RecL0")));
    v.push(marked!(U_RecL0, enc_ops::<U_RecL0>("U_RecL0")));
    v.push(marked!(D_RecL0, ops::<D_RecL0>("D_RecL0")));
    v.push(marked!(G_RecL0, ops::<G_RecL0>("G_RecL0")));
    v.push(marked!(M_RecL0, ops::<M_RecL0>("M_RecL0")));
    v.push(marked!(E_ArrL0, ops::<E_ArrL0>("E_ArrL0")));
    v.push(marked!(E_UnkL0, ops::<E_UnkL0>("E_UnkL0")));
    v.push(marked!(G_UnkL0, ops::<G_UnkL0>("G_UnkL0")));
    v.push(marked!(M_UnkL0, ops::<M_UnkL0>("M_UnkL0")));
    v.push(marked!(E_NewP1, ops::<E_NewP1>("E_NewP1")));
    v.push(marked!(U_NewP1, enc_ops::<U_NewP1>("U_NewP1")));
    v.push(marked!(D_NewP1, ops::<D_NewP1>("D_NewP1")));
    v.push(marked!(E_TwoP1, ops::<E_TwoP1>("E_TwoP1")));
}
fn types38(v: &mut Vec<Ops>) {
    v.push(marked!(E_RecP1, ops::<E_RecP1>("E_RecP1")));
    v.push(marked!(G_RecP1, ops::<G_RecP1>("G_RecP1")));
    v.push(marked!(M_RecP1, ops::<M_RecP1>("M_RecP1")));
    v.push(marked!(E_ArrP1, ops::<E_ArrP1>("E_ArrP1")));
    v.push(marked!(U_ArrP1, enc_ops::<U_ArrP1>("U_ArrP1")));
    v.push(marked!(D_ArrP1, ops::<D_ArrP1>("D_ArrP1")));
    v.push(marked!(E_UnkP1, ops::<E_UnkP1>("E_UnkP1")));
    v.push(marked!(G_UnkP1, ops::<G_UnkP1>("G_UnkP1")));
    v.push(marked!(M_UnkP1, ops::<M_UnkP1>("M_UnkP1")));
    v.push(marked!(E_TwoO1, ops::<E_TwoO1>("E_TwoO1")));
    v.push(marked!(U_TwoO1, enc_ops::<U_TwoO1>("U_TwoO1")));
    v.push(marked!(D_TwoO1, ops::<D_TwoO1>("D_TwoO1")));
    v.push(marked!(E_RecO1, ops::<E_RecO1>("E_RecO1")));
    v.push(marked!(G_RecO1, ops::<G_RecO1>("G_RecO1")));
    v.push(marked!(M_RecO1, ops::<M_RecO1>("M_RecO1")));
    v.push(marked!(E_ArrO1, ops::<E_ArrO1>("E_ArrO1")));
    v.push(marked!(E_UnkO1, ops::<E_UnkO1>("E_UnkO1")));
    v.push(marked!(U_UnkO1, enc_ops::<U_UnkO1>("U_UnkO1")));
    v.push(marked!(D_UnkO1, ops::<D_UnkO1>("D_UnkO1")));
    v.push(marked!(G_UnkO1, ops::<G_UnkO1>("G_UnkO1")));
    v.push(marked!(M_UnkO1, ops::<M_UnkO1>("M_UnkO1")));
    v.push(marked!(E_NewL1, ops::<E_NewL1>("E_NewL1")));
    v.push(marked!(E_TwoL1, ops::<E_TwoL1>("E_TwoL1")));
    v.push(marked!(E_RecL1, ops::<E_RecL1>("E_RecL1")));
    v.push(marked!(U_RecL1, enc_ops::<U_RecL1>("U_RecL1")));
    v.push(marked!(D_RecL1, ops::<D_RecL1>("D_RecL1")));
    v.push(marked!(G_RecL1, ops::<G_RecL1>("G_RecL1")));
    v.push(marked!(M_RecL1, ops::<M_RecL1>("M_RecL1")));
    v.push(marked!(E_ArrL1, ops::<E_ArrL1>("E_ArrL1")));
    v.push(marked!(E_UnkL1, ops::<E_UnkL1>("E_UnkL1")));
    v.push(marked!(G_UnkL1, ops::<G_UnkL1>("G_UnkL1")));
    v.push(marked!(M_UnkL1, ops::<M_UnkL1>("M_UnkL1")));
    v.push(marked!(E_NewP2, ops::<E_NewP2>("E_NewP2")));
    v.push(marked!(U_NewP2, enc_ops::<U_NewP2>("U_NewP2")));
    v.push(marked!(D_NewP2, ops::<D_NewP2>("D_NewP2")));
    v.push(marked!(E_TwoP2, ops::<E_TwoP2>("E_TwoP2")));
    v.push(marked!(E_RecP2, ops::<E_RecP2>("E_RecP2")));
    v.push(marked!(G_RecP2, ops::<G_RecP2>("G_RecP2")));
    v.push(marked!(M_RecP2, ops::<M_RecP2>("M_RecP2")));
    v.push(marked!(E_ArrP2, ops::<E_ArrP2>("E_ArrP2")));
    v.push(marked!(U_ArrP2, enc_ops::<U_ArrP2>("U_ArrP2")));
    v.push(marked!(D_ArrP2, ops::<D_ArrP2>("D_ArrP2")));
    v.push(marked!(E_UnkP2, ops::<E_UnkP2>("E_UnkP2")));
    v.push(marked!(G_UnkP2, ops::<G_UnkP2>("G_UnkP2")));
    v.push(marked!(M_UnkP2, ops::<M_UnkP2>("M_UnkP2")));
    v.push(marked!(E_TwoO2, ops::<E_TwoO2>("E_TwoO2")));
    v.push(marked!(U_TwoO2, enc_ops::<U_TwoO2>("U_TwoO2")));
    v.push(marked!(D_TwoO2, ops::<D_TwoO2>("D_TwoO2")));
    v.push(marked!(E_RecO2, ops::<E_RecO2>("E_RecO2")));
    v.push(marked!(G_RecO2, ops::<G_RecO2>("G_RecO2")));
}
fn types39(v: &mut Vec<Ops>) {
    v.push(marked!(M_RecO2, ops::<M_RecO2>("M_RecO2")));
    v.push(marked!(E_ArrO2, ops::<E_ArrO2>("E_ArrO2")));
    v.push(marked!(E_UnkO2, ops::<E_UnkO2>("E_UnkO2")));
    v.push(marked!(U_UnkO2, enc_ops::<U_UnkO2>("U_UnkO2")));
    v.push(marked!(D_UnkO2, ops::<D_UnkO2>("D_UnkO2")));
    v.push(marked!(G_UnkO2, ops::<G_UnkO2>("G_UnkO2")));
    v.push(marked!(M_UnkO2, ops::<M_UnkO2>("M_UnkO2")));
    v.push(marked!(E_NewL2, ops::<E_NewL2>("E_NewL2")));
    v.push(marked!(E_TwoL2, ops::<E_TwoL2>("E_TwoL2")));
    v.push(marked!(E_RecL2, ops::<E_RecL2>("E_RecL2")));
    v.push(marked!(U_RecL2, enc_ops::<U_RecL2>("U_RecL2")));
    v.push(marked!(D_RecL2, ops::<D_RecL2>("D_RecL2")));
    v.push(marked!(G_RecL2, ops::<G_RecL2>("G_RecL2")));
    v.push(marked!(M_RecL2, ops::<M_RecL2>("M_RecL2")));
    v.push(marked!(E_ArrL2, ops::<E_ArrL2>("E_ArrL2")));
    v.push(marked!(E_UnkL2, ops::<E_UnkL2>("E_UnkL2")));
    v.push(marked!(G_UnkL2, ops::<G_UnkL2>("G_UnkL2")));
    v.push(marked!(M_UnkL2, ops::<M_UnkL2>("M_UnkL2")));
    v.push(marked!(E_NewP3, ops::<E_NewP3>("E_NewP3")));
    v.push(marked!(U_NewP3, enc_ops::<U_NewP3>("U_NewP3")));
    v.push(marked!(D_NewP3, ops::<D_NewP3>("D_NewP3")));
    v.push(marked!(E_TwoP3, ops::<E_TwoP3>("E_TwoP3")));
    v.push(marked!(E_RecP3, ops::<E_RecP3>("E_RecP3")));
    v.push(marked!(G_RecP3, ops::<G_RecP3>("G_RecP3")));
    v.push(marked!(M_RecP3, ops::<M_RecP3>("M_RecP3")));
    v.push(marked!(E_ArrP3, ops::<E_ArrP3>("E_ArrP3")));
    v.push(marked!(U_ArrP3, enc_ops::<U_ArrP3>("U_ArrP3")));
    v.push(marked!(D_ArrP3, ops::<D_ArrP3>("D_ArrP3")));
    v.push(marked!(E_UnkP3, ops::<E_UnkP3>("E_UnkP3")));
    v.push(marked!(G_UnkP3, ops::<G_UnkP3>("G_UnkP3")));
    v.push(marked!(M_UnkP3, ops::<M_UnkP3>("M_UnkP3")));
    v.push(marked!(E_TwoO3, ops::<E_TwoO3>("E_TwoO3")));
    v.push(marked!(U_TwoO3, enc_ops::<U_TwoO3>("U_TwoO3")));
    v.push(marked!(D_TwoO3, ops::<D_TwoO3>("D_TwoO3")));
    v.push(marked!(E_RecO3, ops::<E_RecO3>("E_RecO3")));
    v.push(marked!(G_RecO3, ops::<G_RecO3>("G_RecO3")));
    v.push(marked!(M_RecO3, ops::<M_RecO3>("M_RecO3")));
    v.push(marked!(E_ArrO3, ops::<E_ArrO3>("E_ArrO3")));
    v.push(marked!(E_UnkO3, ops::<E_UnkO3>("E_UnkO3")));
    v.push(marked!(U_UnkO3, enc_ops::<U_UnkO3>("U_UnkO3")));
    v.push(marked!(D_UnkO3, ops::<D_UnkO3>("D_UnkO3")));
    v.push(marked!(G_UnkO3, ops::<G_UnkO3>("G_UnkO3")));
    v.push(marked!(M_UnkO3, ops::<M_UnkO3>("M_UnkO3")));
    v.push(marked!(E_NewL3, ops::<E_NewL3>("E_NewL3")));
    v.push(marked!(E_TwoL3, ops::<E_TwoL3>("E_TwoL3")));
    v.push(marked!(E_RecL3, ops::<E_RecL3>("E_RecL3")));
    v.push(marked!(U_RecL3, enc_ops::<U_RecL3>("U_RecL3")));
    v.push(marked!(D_RecL3, ops::<D_RecL3>("D_RecL3")));
    v.push(marked!(G_RecL3, ops::<G_RecL3>("G_RecL3")));
    v.push(marked!(M_RecL3, ops::<M_RecL3>("M_RecL3")));
}
fn types40(v: &mut Vec<Ops>) {
    v.push(marked!(E_ArrL3, ops::<E_ArrL3>("E_ArrL3")));
    v.push(marked!(E_UnkL3, ops::<E_UnkL3>("E_UnkL3")));
    v.push(marked!(G_UnkL3, ops::<G_UnkL3>("G_UnkL3")));
    v.push(marked!(M_UnkL3, ops::<M_UnkL3>("M_UnkL3")));
    v.push(marked!(E_NewP4, ops::<E_NewP4>("E_NewP4")));
    v.push(marked!(U_NewP4, enc_ops::<U_NewP4>("U_NewP4")));
    v.push(marked!(D_NewP4, ops::<D_NewP4>("D_NewP4")));
    v.push(marked!(E_TwoP4, ops::<E_TwoP4>("E_TwoP4")));
    v.push(marked!(E_RecP4, ops::<E_RecP4>("E_RecP4")));
    v.push(marked!(G_RecP4, ops::<G_RecP4>("G_RecP4")));
    v.push(marked!(M_RecP4, ops::<M_RecP4>("M_RecP4")));
    v.push(marked!(E_ArrP4, ops::<E_ArrP4>("E_ArrP4")));
    v.push(marked!(U_ArrP4, enc_ops::<U_ArrP4>("U_ArrP4")));
    v.push(marked!(D_ArrP4, ops::<D_ArrP4>("D_ArrP4")));
    v.push(marked!(E_UnkP4, ops::<E_UnkP4>("E_UnkP4")));
    v.push(marked!(G_UnkP4, ops::<G_UnkP4>("G_UnkP4")));
    v.push(marked!(M_UnkP4, ops::<M_UnkP4>("M_UnkP4")));
    v.push(marked!(E_TwoO4, ops::<E_TwoO4>("E_TwoO4")));
    v.push(marked!(U_TwoO4, enc_ops::<U_TwoO4>("U_TwoO4")));
    v.push(marked!(D_TwoO4, ops::<D_TwoO4>("D_TwoO4")));
    v.push(marked!(E_RecO4, ops::<E_RecO4>("E_RecO4")));
    v.push(marked!(G_RecO4, ops::<G_RecO4>("G_RecO4")));
    v.push(marked!(M_RecO4, ops::<M_RecO4>("M_RecO4")));
    v.push(marked!(E_ArrO4, ops::<E_ArrO4>("E_ArrO4")));
    v.push(marked!(E_UnkO4, ops::<E_UnkO4>("E_UnkO4")));
    v.push(marked!(U_UnkO4, enc_ops::<U_UnkO4>("U_UnkO4")));
    v.push(marked!(D_UnkO4, ops::<D_UnkO4>("D_UnkO4")));
    v.push(marked!(G_UnkO4, ops::<G_UnkO4>("G_UnkO4")));
    v.push(marked!(M_UnkO4, ops::<M_UnkO4>("M_UnkO4")));
    v.push(marked!(E_NewL4, ops::<E_NewL4>("E_NewL4")));
    v.push(marked!(E_TwoL4, ops::<E_TwoL4>("E_TwoL4")));
    v.push(marked!(E_RecL4, ops::<E_RecL4>("E_RecL4")));
    v.push(marked!(U_RecL4, enc_ops::<U_RecL4>("U_RecL4")));
    v.push(marked!(D_RecL4, ops::<D_RecL4>("D_RecL4")));
    v.push(marked!(G_RecL4, ops::<G_RecL4>("G_RecL4")));
    v.push(marked!(M_RecL4, ops::<M_RecL4>("M_RecL4")));
    v.push(marked!(E_ArrL4, ops::<E_ArrL4>("E_ArrL4")));
    v.push(marked!(E_UnkL4, ops::<E_UnkL4>("E_UnkL4")));
    v.push(marked!(G_UnkL4, ops::<G_UnkL4>("G_UnkL4")));
    v.push(marked!(M_UnkL4, ops::<M_UnkL4>("M_UnkL4")));
    v.push(marked!(E_RecI0, ops::<E_RecI0>("E_RecI0")));
    v.push(marked!(G_RecI0, ops::<G_RecI0>("G_RecI0")));
    v.push(marked!(M_RecI0, ops::<M_RecI0>("M_RecI0")));
    v.push(marked!(E_UnkI0, ops::<E_UnkI0>("E_UnkI0")));
    v.push(marked!(G_UnkI0, ops::<G_UnkI0>("G_UnkI0")));
    v.push(marked!(M_UnkI0, ops::<M_UnkI0>("M_UnkI0")));
    v.push(marked!(E_TwoS0, ops::<E_TwoS0>("E_TwoS0")));
    v.push(marked!(U_TwoS0, enc_ops::<U_TwoS0>("U_TwoS0")));
    v.push(marked!(D_TwoS0, ops::<D_TwoS0>("D_TwoS0")));
    v.push(marked!(E_RecS0, ops::<E_RecS0>("E_RecS0")));
}
fn types41(v: &mut Vec<Ops>) {
    v.push(marked!(G_RecS0, ops::<G_RecS0>("G_RecS0")));
    v.push(marked!(M_RecS0, ops::<M_RecS0>("M_RecS0")));
    v.push(marked!(E_ArrS0, ops::<E_ArrS0>("E_ArrS0")));
    v.push(marked!(E_UnkS0, ops::<E_UnkS0>("E_UnkS0")));
    v.push(marked!(U_UnkS0, enc_ops::<U_UnkS0>("U_UnkS0")));
    v.push(marked!(D_UnkS0, ops::<D_UnkS0>("D_UnkS0")));
    v.push(marked!(G_UnkS0, ops::<G_UnkS0>("G_UnkS0")));
    v.push(marked!(M_UnkS0, ops::<M_UnkS0>("M_UnkS0")));
    v.push(marked!(E_NewW0, ops::<E_NewW0>("E_NewW0")));
    v.push(marked!(E_TwoW0, ops::<E_TwoW0>("E_TwoW0")));
    v.push(marked!(E_RecW0, ops::<E_RecW0>("E_RecW0")));
    v.push(marked!(U_RecW0, enc_ops::<U_RecW0>("U_RecW0")));
    v.push(marked!(D_RecW0, ops::<D_RecW0>("D_RecW0")));
    v.push(marked!(G_RecW0, ops::<G_RecW0>("G_RecW0")));
    v.push(marked!(M_RecW0, ops::<M_RecW0>("M_RecW0")));
    v.push(marked!(E_ArrW0, ops::<E_ArrW0>("E_ArrW0")));
    v.push(marked!(E_UnkW0, ops::<E_UnkW0>("E_UnkW0")));
    v.push(marked!(G_UnkW0, ops::<G_UnkW0>("G_UnkW0")));
    v.push(marked!(M_UnkW0, ops::<M_UnkW0>("M_UnkW0")));
    v.push(marked!(E_NewX0, ops::<E_NewX0>("E_NewX0")));
    v.push(marked!(U_NewX0, enc_ops::<U_NewX0>("U_NewX0")));
    v.push(marked!(D_NewX0, ops::<D_NewX0>("D_NewX0")));
    v.push(marked!(E_TwoX0, ops::<E_TwoX0>("E_TwoX0")));
    v.push(marked!(E_RecX0, ops::<E_RecX0>("E_RecX0")));
    v.push(marked!(G_RecX0, ops::<G_RecX0>("G_RecX0")));
    v.push(marked!(M_RecX0, ops::<M_RecX0>("M_RecX0")));
    v.push(marked!(E_ArrX0, ops::<E_ArrX0>("E_ArrX0")));
    v.push(marked!(U_ArrX0, enc_ops::<U_ArrX0>("U_ArrX0")));
    v.push(marked!(D_ArrX0, ops::<D_ArrX0>("D_ArrX0")));
    v.push(marked!(E_UnkX0, ops::<E_UnkX0>("E_UnkX0")));
    v.push(marked!(G_UnkX0, ops::<G_UnkX0>("G_UnkX0")));
    v.push(marked!(M_UnkX0, ops::<M_UnkX0>("M_UnkX0")));
    v.push(marked!(E_TwoT0, ops::<E_TwoT0>("E_TwoT0")));
    v.push(marked!(U_TwoT0, enc_ops::<U_TwoT0>("U_TwoT0")));
    v.push(marked!(D_TwoT0, ops::<D_TwoT0>("D_TwoT0")));
    v.push(marked!(E_RecT0, ops::<E_RecT0>("E_RecT0")));
    v.push(marked!(G_RecT0, ops::<G_RecT0>("G_RecT0")));
    v.push(marked!(M_RecT0, ops::<M_RecT0>("M_RecT0")));
    v.push(marked!(E_ArrT0, ops::<E_ArrT0>("E_ArrT0")));
    v.push(marked!(E_UnkT0, ops::<E_UnkT0>("E_UnkT0")));
    v.push(marked!(U_UnkT0, enc_ops::<U_UnkT0>("U_UnkT0")));
    v.push(marked!(D_UnkT0, ops::<D_UnkT0>("D_UnkT0")));
    v.push(marked!(G_UnkT0, ops::<G_UnkT0>("G_UnkT0")));
    v.push(marked!(M_UnkT0, ops::<M_UnkT0>("M_UnkT0")));
    v.push(marked!(E_TwoU0, ops::<E_TwoU0>("E_TwoU0")));
    v.push(marked!(E_RecU0, ops::<E_RecU0>("E_RecU0")));
    v.push(marked!(U_RecU0, enc_ops::<U_RecU0>("U_RecU0")));
    v.push(marked!(D_RecU0, ops::<D_RecU0>("D_RecU0")));
    v.push(marked!(G_RecU0, ops::<G_RecU0>("G_RecU0")));
    v.push(marked!(M_RecU0, ops::<M_RecU0>("M_RecU0")));
}
fn types42(v: &mut Vec<Ops>) {
    v.push(marked!(E_ArrU0, ops::<E_ArrU0>("E_ArrU0")));
    v.push(marked!(E_UnkU0, ops::<E_UnkU0>("E_UnkU0")));
    v.push(marked!(G_UnkU0, ops::<G_UnkU0>("G_UnkU0")));
    v.push(marked!(M_UnkU0, ops::<M_UnkU0>("M_UnkU0")));
    v.push(marked!(E_TwoV0, ops::<E_TwoV0>("E_TwoV0")));
    v.push(marked!(E_RecV0, ops::<E_RecV0>("E_RecV0")));
    v.push(marked!(G_RecV0, ops::<G_RecV0>("G_RecV0")));
    v.push(marked!(M_RecV0, ops::<M_RecV0>("M_RecV0")));
    v.push(marked!(E_ArrV0, ops::<E_ArrV0>("E_ArrV0")));
    v.push(marked!(U_ArrV0, enc_ops::<U_ArrV0>("U_ArrV0")));
    v.push(marked!(D_ArrV0, ops::<D_ArrV0>("D_ArrV0")));
    v.push(marked!(E_UnkV0, ops::<E_UnkV0>("E_UnkV0")));
    v.push(marked!(G_UnkV0, ops::<G_UnkV0>("G_UnkV0")));
    v.push(marked!(M_UnkV0, ops::<M_UnkV0>("M_UnkV0")));
    v.push(marked!(E_TwoA0, ops::<E_TwoA0>("E_TwoA0")));
    v.push(marked!(U_TwoA0, enc_ops::<U_TwoA0>("U_TwoA0")));
    v.push(marked!(D_TwoA0, ops::<D_TwoA0>("D_TwoA0")));
    v.push(marked!(E_RecA0, ops::<E_RecA0>("E_RecA0")));
    v.push(marked!(G_RecA0, ops::<G_RecA0>("G_RecA0")));
    v.push(marked!(M_RecA0, ops::<M_RecA0>("M_RecA0")));
    v.push(marked!(E_ArrA0, ops::<E_ArrA0>("E_ArrA0")));
    v.push(marked!(E_UnkA0, ops::<E_UnkA0>("E_UnkA0")));
    v.push(marked!(U_UnkA0, enc_ops::<U_UnkA0>("U_UnkA0")));
    v.push(marked!(D_UnkA0, ops::<D_UnkA0>("D_UnkA0")));
    v.push(marked!(G_UnkA0, ops::<G_UnkA0>("G_UnkA0")));
    v.push(marked!(M_UnkA0, ops::<M_UnkA0>("M_UnkA0")));
    v.push(marked!(E_TwoR0, ops::<E_TwoR0>("E_TwoR0")));
    v.push(marked!(E_RecR0, ops::<E_RecR0>("E_RecR0")));
    v.push(marked!(U_RecR0, enc_ops::<U_RecR0>("U_RecR0")));
    v.push(marked!(D_RecR0, ops::<D_RecR0>("D_RecR0")));
    v.push(marked!(G_RecR0, ops::<G_RecR0>("G_RecR0")));
    v.push(marked!(M_RecR0, ops::<M_RecR0>("M_RecR0")));
    v.push(marked!(E_ArrR0, ops::<E_ArrR0>("E_ArrR0")));
    v.push(marked!(E_UnkR0, ops::<E_UnkR0>("E_UnkR0")));
    v.push(marked!(G_UnkR0, ops::<G_UnkR0>("G_UnkR0")));
    v.push(marked!(M_UnkR0, ops::<M_UnkR0>("M_UnkR0")));
    v.push(marked!(E_RecI1, ops::<E_RecI1>("E_RecI1")));
    v.push(marked!(G_RecI1, ops::<G_RecI1>("G_RecI1")));
    v.push(marked!(M_RecI1, ops::<M_RecI1>("M_RecI1")));
    v.push(marked!(E_UnkI1, ops::<E_UnkI1>("E_UnkI1")));
    v.push(marked!(G_UnkI1, ops::<G_UnkI1>("G_UnkI1")));
    v.push(marked!(M_UnkI1, ops::<M_UnkI1>("M_UnkI1")));
    v.push(marked!(E_TwoS1, ops::<E_TwoS1>("E_TwoS1")));
    v.push(marked!(U_TwoS1, enc_ops::<U_TwoS1>("U_TwoS1")));
    v.push(marked!(D_TwoS1, ops::<D_TwoS1>("D_TwoS1")));
    v.push(marked!(E_RecS1, ops::<E_RecS1>("E_RecS1")));
    v.push(marked!(G_RecS1, ops::<G_RecS1>("G_RecS1")));
    v.push(marked!(M_RecS1, ops::<M_RecS1>("M_RecS1")));
    v.push(marked!(E_ArrS1, ops::<E_ArrS1>("E_ArrS1")));
    v.push(marked!(E_UnkS1, ops::<E_UnkS1>("E_UnkS1")));
}
fn types43(v: &mut Vec<Ops>) {
    v.push(marked!(U_UnkS1, enc_ops::<U_UnkS1>("U_UnkS1")));
    v.push(marked!(D_UnkS1, ops::<D_UnkS1>("D_UnkS1")));
    v.push(marked!(G_UnkS1, ops::<G_UnkS1>("G_UnkS1")));
    v.push(marked!(M_UnkS1, ops::<M_UnkS1>("M_UnkS1")));
    v.push(marked!(E_NewW1, ops::<E_NewW1>("E_NewW1")));
    v.push(marked!(E_TwoW1, ops::<E_TwoW1>("E_TwoW1")));
    v.push(marked!(E_RecW1, ops::<E_RecW1>("E_RecW1")));
    v.push(marked!(U_RecW1, enc_ops::<U_RecW1>("U_RecW1")));
    v.push(marked!(D_RecW1, ops::<D_RecW1>("D_RecW1")));
    v.push(marked!(G_RecW1, ops::<G_RecW1>("G_RecW1")));
    v.push(marked!(M_RecW1, ops::<M_RecW1>("M_RecW1")));
    v.push(marked!(E_ArrW1, ops::<E_ArrW1>("E_ArrW1")));
    v.push(marked!(E_UnkW1, ops::<E_UnkW1>("E_UnkW1")));
    v.push(marked!(G_UnkW1, ops::<G_UnkW1>("G_UnkW1")));
    v.push(marked!(M_UnkW1, ops::<M_UnkW1>("M_UnkW1")));
    v.push(marked!(E_NewX1, ops::<E_NewX1>("E_NewX1")));
    v.push(marked!(U_NewX1, enc_ops::<U_NewX1>("U_NewX1")));
    v.push(marked!(D_NewX1, ops::<D_NewX1>("D_NewX1")));
    v.push(marked!(E_TwoX1, ops::<E_TwoX1>("E_TwoX1")));
    v.push(marked!(E_RecX1, ops::<E_RecX1>("E_RecX1")));
    v.push(marked!(G_RecX1, ops::<G_RecX1>("G_RecX1")));
    v.push(marked!(M_RecX1, ops::<M_RecX1>("M_RecX1")));
    v.push(marked!(E_ArrX1, ops::<E_ArrX1>("E_ArrX1")));
    v.push(marked!(U_ArrX1, enc_ops::<U_ArrX1>("U_ArrX1")));
    v.push(marked!(D_ArrX1, ops::<D_ArrX1>("D_ArrX1")));
    v.push(marked!(E_UnkX1, ops::<E_UnkX1>("E_UnkX1")));
    v.push(marked!(G_UnkX1, ops::<G_UnkX1>("G_UnkX1")));
    v.push(marked!(M_UnkX1, ops::<M_UnkX1>("M_UnkX1")));
    v.push(marked!(E_TwoT1, ops::<E_TwoT1>("E_TwoT1")));
    v.push(marked!(U_TwoT1, enc_ops::<U_TwoT1>("U_TwoT1")));
    v.push(marked!(D_TwoT1, ops::<D_TwoT1>("D_TwoT1")));
    v.push(marked!(E_RecT1, ops::<E_RecT1>("E_RecT1")));
    v.push(marked!(G_RecT1, ops::<G_RecT1>("G_RecT1")));
    v.push(marked!(M_RecT1, ops::<M_RecT1>("M_RecT1")));
    v.push(marked!(E_ArrT1, ops::<E_ArrT1>("E_ArrT1")));
    v.push(marked!(E_UnkT1, ops::<E_UnkT1>("E_UnkT1")));
    v.push(marked!(U_UnkT1, enc_ops::<U_UnkT1>("U_UnkT1")));
    v.push(marked!(D_UnkT1, ops::<D_UnkT1>("D_UnkT1")));
    v.push(marked!(G_UnkT1, ops::<G_UnkT1>("G_UnkT1")));
    v.push(marked!(M_UnkT1, ops::<M_UnkT1>("M_UnkT1")));
    v.push(marked!(E_TwoU1, ops::<E_TwoU1>("E_TwoU1")));
    v.push(marked!(E_RecU1, ops::<E_RecU1>("E_RecU1")));
    v.push(marked!(U_RecU1, enc_ops::<U_RecU1>("U_RecU1")));
    v.push(marked!(D_RecU1, ops::<D_RecU1>("D_RecU1")));
    v.push(marked!(G_RecU1, ops::<G_RecU1>("G_RecU1")));
    v.push(marked!(M_RecU1, ops::<M_RecU1>("M_RecU1")));
    v.push(marked!(E_ArrU1, ops::<E_ArrU1>("E_ArrU1")));
    v.push(marked!(E_UnkU1, ops::<E_UnkU1>("E_UnkU1")));
    v.push(marked!(G_UnkU1, ops::<G_UnkU1>("G_UnkU1")));
    v.push(marked!(M_UnkU1, ops::<M_UnkU1>("M_UnkU1")));
}
fn types44(v: &mut Vec<Ops>) {
    v.push(marked!(E_TwoV1, ops::<E_TwoV1>("E_TwoV1")));
    v.push(marked!(E_RecV1, ops::<E_RecV1>("E_RecV1")));
    v.push(marked!(G_RecV1, ops::<G_RecV1>("G_RecV1")));
    v.push(marked!(M_RecV1, ops::<M_RecV1>("M_RecV1")));
    v.push(marked!(E_ArrV1, ops::<E_ArrV1>("E_ArrV1")));
    v.push(marked!(U_ArrV1, enc_ops::<U_ArrV1>("U_ArrV1")));
    v.push(marked!(D_ArrV1, ops::<D_ArrV1>("D_ArrV1")));
    v.push(marked!(E_UnkV1, ops::<E_UnkV1>("E_UnkV1")));
    v.push(marked!(G_UnkV1, ops::<G_UnkV1>("G_UnkV1")));
    v.push(marked!(M_UnkV1, ops::<M_UnkV1>("M_UnkV1")));
    v.push(marked!(E_TwoA1, ops::<E_TwoA1>("E_TwoA1")));
    v.push(marked!(U_TwoA1, enc_ops::<U_TwoA1>("U_TwoA1")));
    v.push(marked!(D_TwoA1, ops::<D_TwoA1>("D_TwoA1")));
    v.push(marked!(E_RecA1, ops::<E_RecA1>("E_RecA1")));
    v.push(marked!(G_RecA1, ops::<G_RecA1>("G_RecA1")));
    v.push(marked!(M_RecA1, ops::<M_RecA1>("M_RecA1")));
    v.push(marked!(E_ArrA1, ops::<E_ArrA1>("E_ArrA1")));
    v.push(marked!(E_UnkA1, ops::<E_UnkA1>("E_UnkA1")));
    v.push(marked!(U_UnkA1, enc_ops::<U_UnkA1>("U_UnkA1")));
    v.push(marked!(D_UnkA1, ops::<D_UnkA1>("D_UnkA1")));
    v.push(marked!(G_UnkA1, ops::<G_UnkA1>("G_UnkA1")));
    v.push(marked!(M_UnkA1, ops::<M_UnkA1>("M_UnkA1")));
    v.push(marked!(E_TwoR1, ops::<E_TwoR1>("E_TwoR1")));
    v.push(marked!(E_RecR1, ops::<E_RecR1>("E_RecR1")));
    v.push(marked!(U_RecR1, enc_ops::<U_RecR1>("U_RecR1")));
    v.push(marked!(D_RecR1, ops::<D_RecR1>("D_RecR1")));
    v.push(marked!(G_RecR1, ops::<G_RecR1>("G_RecR1")));
    v.push(marked!(M_RecR1, ops::<M_RecR1>("M_RecR1")));
    v.push(marked!(E_ArrR1, ops::<E_ArrR1>("E_ArrR1")));
    v.push(marked!(E_UnkR1, ops::<E_UnkR1>("E_UnkR1")));
    v.push(marked!(G_UnkR1, ops::<G_UnkR1>("G_UnkR1")));
    v.push(marked!(M_UnkR1, ops::<M_UnkR1>("M_UnkR1")));
    v.push(marked!(E_RecI2, ops::<E_RecI2>("E_RecI2")));
    v.push(marked!(G_RecI2, ops::<G_RecI2>("G_RecI2")));
    v.push(marked!(M_RecI2, ops::<M_RecI2>("M_RecI2")));
    v.push(marked!(E_UnkI2, ops::<E_UnkI2>("E_UnkI2")));
    v.push(marked!(G_UnkI2, ops::<G_UnkI2>("G_UnkI2")));
    v.push(marked!(M_UnkI2, ops::<M_UnkI2>("M_UnkI2")));
    v.push(marked!(E_TwoS2, ops::<E_TwoS2>("E_TwoS2")));
    v.push(marked!(U_TwoS2, enc_ops::<U_TwoS2>("U_TwoS2")));
    v.push(marked!(D_TwoS2, ops::<D_TwoS2>("D_TwoS2")));
    v.push(marked!(E_RecS2, ops::<E_RecS2>("E_RecS2")));
    v.push(marked!(G_RecS2, ops::<G_RecS2>("G_RecS2")));
    v.push(marked!(M_RecS2, ops::<M_RecS2>("M_RecS2")));
    v.push(marked!(E_ArrS2, ops::<E_ArrS2>("E_ArrS2")));
    v.push(marked!(E_UnkS2, ops::<E_UnkS2>("E_UnkS2")));
    v.push(marked!(U_UnkS2, enc_ops::<U_UnkS2>("U_UnkS2")));
    v.push(marked!(D_UnkS2, ops::<D_UnkS2>("D_UnkS2")));
    v.push(marked!(G_UnkS2, ops::<G_UnkS2>("G_UnkS2")));
    v.push(marked!(M_UnkS2, ops::<M_UnkS2>("M_UnkS2")));
}
fn types45(v: &mut Vec<Ops>) {
    v.push(marked!(E_NewW2, ops::<E_NewW2>("E_NewW2")));
    v.push(marked!(E_TwoW2, ops::<E_TwoW2>("E_TwoW2")));
    v.push(marked!(E_RecW2, ops::<E_RecW2>("E_RecW2")));
    v.push(marked!(U_RecW2, enc_ops::<U_RecW2>("U_RecW2")));
    v.push(marked!(D_RecW2, ops::<D_RecW2>("D_RecW2")));
    v.push(marked!(G_RecW2, ops::<G_RecW2>("G_RecW2")));
    v.push(marked!(M_RecW2, ops::<M_RecW2>("M_RecW2")));
    v.push(marked!(E_ArrW2, ops::<E_ArrW2>("E_ArrW2")));
    v.push(marked!(E_UnkW2, ops::<E_UnkW2>("E_UnkW2")));
    v.push(marked!(G_UnkW2, ops::<G_UnkW2>("G_UnkW2")));
    v.push(marked!(M_UnkW2, ops::<M_UnkW2>("M_UnkW2")));
    v.push(marked!(E_NewX2, ops::<E_NewX2>("E_NewX2")));
    v.push(marked!(U_NewX2, enc_ops::<U_NewX2>("U_NewX2")));
    v.push(marked!(D_NewX2, ops::<D_NewX2>("D_NewX2")));
    v.push(marked!(E_TwoX2, ops::<E_TwoX2>("E_TwoX2")));
    v.push(marked!(E_RecX2, ops::<E_RecX2>("E_RecX2")));
    v.push(marked!(G_RecX2, ops::<G_RecX2>("G_RecX2")));
    v.push(marked!(M_RecX2, ops::<M_RecX2>("M_RecX2")));
    v.push(marked!(E_ArrX2, ops::<E_ArrX2>("E_ArrX2")));
    v.push(marked!(U_ArrX2, enc_ops::<U_ArrX2>("U_ArrX2")));
    v.push(marked!(D_ArrX2, ops::<D_ArrX2>("D_ArrX2")));
    v.push(marked!(E_UnkX2, ops::<E_UnkX2>("E_UnkX2")));
    v.push(marked!(G_UnkX2, ops::<G_UnkX2>("G_UnkX2")));
    v.push(marked!(M_UnkX2, ops::<M_UnkX2>("M_UnkX2")));
    v.push(marked!(E_TwoT2, ops::<E_TwoT2>("E_TwoT2")));
    v.push(marked!(U_TwoT2, enc_ops::<U_TwoT2>("U_TwoT2")));
    v.push(marked!(D_TwoT2, ops::<D_TwoT2>("D_TwoT2")));
    v.push(marked!(E_RecT2, ops::<E_RecT2>("E_RecT2")));
    v.push(marked!(G_RecT2, ops::<G_RecT2>("G_RecT2")));
    v.push(marked!(M_RecT2, ops::<M_RecT2>("M_RecT2")));
    v.push(marked!(E_ArrT2, ops::<E_ArrT2>("E_ArrT2")));
    v.push(marked!(E_UnkT2, ops::<E_UnkT2>("E_UnkT2")));
    v.push(marked!(U_UnkT2, enc_ops::<U_UnkT2>("U_UnkT2")));
    v.push(marked!(D_UnkT2, ops::<D_UnkT2>("D_UnkT2")));
    v.push(marked!(G_UnkT2, ops::<G_UnkT2>("G_UnkT2")));
    v.push(marked!(M_UnkT2, ops::<M_UnkT2>("M_UnkT2")));
    v.push(marked!(E_TwoU2, ops::<E_TwoU2>("E_TwoU2")));
    v.push(marked!(E_RecU2, ops::<E_RecU2>("E_RecU2")));
    v.push(marked!(U_RecU2, enc_ops::<U_RecU2>("U_RecU2")));
    v.push(marked!(D_RecU2, ops::<D_RecU2>("D_RecU2")));
    v.push(marked!(G_RecU2, ops::<G_RecU2>("G_RecU2")));
    v.push(marked!(M_RecU2, ops::<M_RecU2>("M_RecU2")));
    v.push(marked!(E_ArrU2, ops::<E_ArrU2>("E_ArrU2")));
    v.push(marked!(E_UnkU2, ops::<E_UnkU2>("E_UnkU2")));
    v.push(marked!(G_UnkU2, ops::<G_UnkU2>("G_UnkU2")));
    v.push(marked!(M_UnkU2, ops::<M_UnkU2>("M_UnkU2")));
    v.push(marked!(E_TwoV2, ops::<E_TwoV2>("E_TwoV2")));
    v.push(marked!(E_RecV2, ops::<E_RecV2>("E_RecV2")));
    v.push(marked!(G_RecV2, ops::<G_RecV2>("G_RecV2")));
    v.push(marked!(M_RecV2, ops::<M_RecV2>("M_RecV2")));
}
fn types46(v: &mut Vec<Ops>) {
    v.push(marked!(E_ArrV2, ops::<E_ArrV2>("E_ArrV2")));
    v.push(marked!(U_ArrV2, enc_ops::<U_ArrV2>("U_ArrV2")));
    v.push(marked!(D_ArrV2, ops::<D_ArrV2>("D_ArrV2")));
    v.push(marked!(E_UnkV2, ops::<E_UnkV2>("E_UnkV2")));
    v.push(marked!(G_UnkV2, ops::<G_UnkV2>("G_UnkV2")));
    v.push(marked!(M_UnkV2, ops::<M_UnkV2>("M_UnkV2")));
    v.push(marked!(E_TwoA2, ops::<E_TwoA2>("E_TwoA2")));
    v.push(marked!(U_TwoA2, enc_ops::<U_TwoA2>("U_TwoA2")));
    v.push(marked!(D_TwoA2, ops::<D_TwoA2>("D_TwoA2")));
    v.push(marked!(E_RecA2, ops::<E_RecA2>("E_RecA2")));
    v.push(marked!(G_RecA2, ops::<G_RecA2>("G_RecA2")));
    v.push(marked!(M_RecA2, ops::<M_RecA2>("M_RecA2")));
    v.push(marked!(E_ArrA2, ops::<E_ArrA2>("E_ArrA2")));
    v.push(marked!(E_UnkA2, ops::<E_UnkA2>("E_UnkA2")));
    v.push(marked!(U_UnkA2, enc_ops::<U_UnkA2>("U_UnkA2")));
    v.push(marked!(D_UnkA2, ops::<D_UnkA2>("D_UnkA2")));
    v.push(marked!(G_UnkA2, ops::<G_UnkA2>("G_UnkA2")));
    v.push(marked!(M_UnkA2, ops::<M_UnkA2>("M_UnkA2")));
    v.push(marked!(E_TwoR2, ops::<E_TwoR2>("E_TwoR2")));
    v.push(marked!(E_RecR2, ops::<E_RecR2>("E_RecR2")));
    v.push(marked!(U_RecR2, enc_ops::<U_RecR2>("U_RecR2")));
    v.push(marked!(D_RecR2, ops::<D_RecR2>("D_RecR2")));
    v.push(marked!(G_RecR2, ops::<G_RecR2>("G_RecR2")));
    v.push(marked!(M_RecR2, ops::<M_RecR2>("M_RecR2")));
    v.push(marked!(E_ArrR2, ops::<E_ArrR2>("E_ArrR2")));
    v.push(marked!(E_UnkR2, ops::<E_UnkR2>("E_UnkR2")));
    v.push(marked!(G_UnkR2, ops::<G_UnkR2>("G_UnkR2")));
    v.push(marked!(M_UnkR2, ops::<M_UnkR2>("M_UnkR2")));
    v.push(marked!(E_RecI3, ops::<E_RecI3>("E_RecI3")));
    v.push(marked!(G_RecI3, ops::<G_RecI3>("G_RecI3")));
    v.push(marked!(M_RecI3, ops::<M_RecI3>("M_RecI3")));
    v.push(marked!(E_UnkI3, ops::<E_UnkI3>("E_UnkI3")));
    v.push(marked!(G_UnkI3, ops::<G_UnkI3>("G_UnkI3")));
    v.push(marked!(M_UnkI3, ops::<M_UnkI3>("M_UnkI3")));
    v.push(marked!(E_TwoS3, ops::<E_TwoS3>("E_TwoS3")));
    v.push(marked!(U_TwoS3, enc_ops::<U_TwoS3>("U_TwoS3")));
    v.push(marked!(D_TwoS3, ops::<D_TwoS3>("D_TwoS3")));
    v.push(marked!(E_RecS3, ops::<E_RecS3>("E_RecS3")));
    v.push(marked!(G_RecS3, ops::<G_RecS3>("G_RecS3")));
    v.push(marked!(M_RecS3, ops::<M_RecS3>("M_RecS3")));
    v.push(marked!(E_ArrS3, ops::<E_ArrS3>("E_ArrS3")));
    v.push(marked!(E_UnkS3, ops::<E_UnkS3>("E_UnkS3")));
    v.push(marked!(U_UnkS3, enc_ops::<U_UnkS3>("U_UnkS3")));
    v.push(marked!(D_UnkS3, ops::<D_UnkS3>("D_UnkS3")));
    v.push(marked!(G_UnkS3, ops::<G_UnkS3>("G_UnkS3")));
    v.push(marked!(M_UnkS3, ops::<M_UnkS3>("M_UnkS3")));
    v.push(marked!(E_NewW3, ops::<E_NewW3>("E_NewW3")));
    v.push(marked!(E_TwoW3, ops::<E_TwoW3>("E_TwoW3")));
    v.push(marked!(E_RecW3, ops::<E_RecW3>("E_RecW3")));
    v.push(marked!(U_RecW3, enc_ops::<U_RecW3>("U_RecW3")));
}
fn types47(v: &mut Vec<Ops>) {
    v.push(marked!(D_RecW3, ops::<D_RecW3>("D_RecW3")));
    v.push(marked!(G_RecW3, ops::<G_RecW3>("G_RecW3")));
    v.push(marked!(M_RecW3, ops::<M_RecW3>("M_RecW3")));
    v.push(marked!(E_ArrW3, ops::<E_ArrW3>("E_ArrW3")));
    v.push(marked!(E_UnkW3, ops::<E_UnkW3>("E_UnkW3")));
    v.push(marked!(G_UnkW3, ops::<G_UnkW3>("G_UnkW3")));
    v.push(marked!(M_UnkW3, ops::<M_UnkW3>("M_UnkW3")));
    v.push(marked!(E_NewX3, ops::<E_NewX3>("E_NewX3")));
    v.push(marked!(U_NewX3, enc_ops::<U_NewX3>("U_NewX3")));
    v.push(marked!(D_NewX3, ops::<D_NewX3>("D_NewX3")));
    v.push(marked!(E_TwoX3, ops::<E_TwoX3>("E_TwoX3")));
    v.push(marked!(E_RecX3, ops::<E_RecX3>("E_RecX3")));
    v.push(marked!(G_RecX3, ops::<G_RecX3>("G_RecX3")));
    v.push(marked!(M_RecX3, ops::<M_RecX3>("M_RecX3")));
    v.push(marked!(E_ArrX3, ops::<E_ArrX3>("E_ArrX3")));
    v.push(marked!(U_ArrX3, enc_ops::<U_ArrX3>("U_ArrX3")));
    v.push(marked!(D_ArrX3, ops::<D_ArrX3>("D_ArrX3")));
    v.push(marked!(E_UnkX3, ops::<E_UnkX3>("E_UnkX3")));
    v.push(marked!(G_UnkX3, ops::<G_UnkX3>("G_UnkX3")));
    v.push(marked!(M_UnkX3, ops::<M_UnkX3>("M_UnkX3")));
    v.push(marked!(E_TwoT3, ops::<E_TwoT3>("E_TwoT3")));
    v.push(marked!(U_TwoT3, enc_ops::<U_TwoT3>("U_TwoT3")));
    v.push(marked!(D_TwoT3, ops::<D_TwoT3>("D_TwoT3")));
    v.push(marked!(E_RecT3, ops::<E_RecT3>("E_RecT3")));
    v.push(marked!(G_RecT3, ops::<G_RecT3>("G_RecT3")));
    v.push(marked!(M_RecT3, ops::<M_RecT3>("M_RecT3")));
    v.push(marked!(E_ArrT3, ops::<E_ArrT3>("E_ArrT3")));
    v.push(marked!(E_UnkT3, ops::<E_UnkT3>("E_UnkT3")));
    v.push(marked!(U_UnkT3, enc_ops::<U_UnkT3>("U_UnkT3")));
    v.push(marked!(D_UnkT3, ops::<D_UnkT3>("D_UnkT3")));
    v.push(marked!(G_UnkT3, ops::<G_UnkT3>("G_UnkT3")));
    v.push(marked!(M_UnkT3, ops::<M_UnkT3>("M_UnkT3")));
    v.push(marked!(E_TwoU3, ops::<E_TwoU3>("E_TwoU3")));
    v.push(marked!(E_RecU3, ops::<E_RecU3>("E_RecU3")));
    v.push(marked!(U_RecU3, enc_ops::<U_RecU3>("U_RecU3")));
    v.push(marked!(D_RecU3, ops::<D_RecU3>("D_RecU3")));
    v.push(marked!(G_RecU3, ops::<G_RecU3>("G_RecU3")));
    v.push(marked!(M_RecU3, ops::<M_RecU3>("M_RecU3")));
    v.push(marked!(E_ArrU3, ops::<E_ArrU3>("E_ArrU3")));
    v.push(marked!(E_UnkU3, ops::<E_UnkU3>("E_UnkU3")));
    v.push(marked!(G_UnkU3, ops::<G_UnkU3>("G_UnkU3")));
    v.push(marked!(M_UnkU3, ops::<M_UnkU3>("M_UnkU3")));
    v.push(marked!(E_TwoV3, ops::<E_TwoV3>("E_TwoV3")));
    v.push(marked!(E_RecV3, ops::<E_RecV3>("E_RecV3")));
    v.push(marked!(G_RecV3, ops::<G_RecV3>("G_RecV3")));
    v.push(marked!(M_RecV3, ops::<M_RecV3>("M_RecV3")));
    v.push(marked!(E_ArrV3, ops::<E_ArrV3>("E_ArrV3")));
    v.push(marked!(U_ArrV3, enc_ops::<U_ArrV3>("U_ArrV3")));
    v.push(marked!(D_ArrV3, ops::<D_ArrV3>("D_ArrV3")));
    v.push(marked!(E_UnkV3, ops::<E_UnkV3>("E_UnkV3")));
}
fn types48(v: &mut Vec<Ops>) {
    v.push(marked!(G_UnkV3, ops::<G_UnkV3>("G_UnkV3")));
    v.push(marked!(M_UnkV3, ops::<M_UnkV3>("M_UnkV3")));
    v.push(marked!(E_TwoA3, ops::<E_TwoA3>("E_TwoA3")));
    v.push(marked!(U_TwoA3, enc_ops::<U_TwoA3>("U_TwoA3")));
    v.push(marked!(D_TwoA3, ops::<D_TwoA3>("D_TwoA3")));
    v.push(marked!(E_RecA3, ops::<E_RecA3>("E_RecA3")));
    v.push(marked!(G_RecA3, ops::<G_RecA3>("G_RecA3")));
    v.push(marked!(M_RecA3, ops::<M_RecA3>("M_RecA3")));
    v.push(marked!(E_ArrA3, ops::<E_ArrA3>("E_ArrA3")));
    v.push(marked!(E_UnkA3, ops::<E_UnkA3>("E_UnkA3")));
    v.push(marked!(U_UnkA3, enc_ops::<U_UnkA3>("U_UnkA3")));
    v.push(marked!(D_UnkA3, ops::<D_UnkA3>("D_UnkA3")));
    v.push(marked!(G_UnkA3, ops::<G_UnkA3>("G_UnkA3")));
    v.push(marked!(M_UnkA3, ops::<M_UnkA3>("M_UnkA3")));
    v.push(marked!(E_TwoR3, ops::<E_TwoR3>("E_TwoR3")));
    v.push(marked!(E_RecR3, ops::<E_RecR3>("E_RecR3")));
    v.push(marked!(U_RecR3, enc_ops::<U_RecR3>("U_RecR3")));
    v.push(marked!(D_RecR3, ops::<D_RecR3>("D_RecR3")));
    v.push(marked!(G_RecR3, ops::<G_RecR3>("G_RecR3")));
    v.push(marked!(M_RecR3, ops::<M_RecR3>("M_RecR3")));
    v.push(marked!(E_ArrR3, ops::<E_ArrR3>("E_ArrR3")));
    v.push(marked!(E_UnkR3, ops::<E_UnkR3>("E_UnkR3")));
    v.push(marked!(G_UnkR3, ops::<G_UnkR3>("G_UnkR3")));
    v.push(marked!(M_UnkR3, ops::<M_UnkR3>("M_UnkR3")));
    v.push(marked!(E_TwoN1, ops::<E_TwoN1>("E_TwoN1")));
    v.push(marked!(E_RecN1, ops::<E_RecN1>("E_RecN1")));
    v.push(marked!(G_RecN1, ops::<G_RecN1>("G_RecN1")));
    v.push(marked!(M_RecN1, ops::<M_RecN1>("M_RecN1")));
    v.push(marked!(E_ArrN1, ops::<E_ArrN1>("E_ArrN1")));
    v.push(marked!(U_ArrN1, enc_ops::<U_ArrN1>("U_ArrN1")));
    v.push(marked!(D_ArrN1, ops::<D_ArrN1>("D_ArrN1")));
    v.push(marked!(E_UnkN1, ops::<E_UnkN1>("E_UnkN1")));
    v.push(marked!(G_UnkN1, ops::<G_UnkN1>("G_UnkN1")));
    v.push(marked!(M_UnkN1, ops::<M_UnkN1>("M_UnkN1")));
    v.push(marked!(E_NewN2, ops::<E_NewN2>("E_NewN2")));
    v.push(marked!(E_TwoN2, ops::<E_TwoN2>("E_TwoN2")));
    v.push(marked!(U_TwoN2, enc_ops::<U_TwoN2>("U_TwoN2")));
    v.push(marked!(D_TwoN2, ops::<D_TwoN2>("D_TwoN2")));
    v.push(marked!(E_RecN2, ops::<E_RecN2>("E_RecN2")));
    v.push(marked!(G_RecN2, ops::<G_RecN2>("G_RecN2")));
    v.push(marked!(M_RecN2, ops::<M_RecN2>("M_RecN2")));
    v.push(marked!(E_ArrN2, ops::<E_ArrN2>("E_ArrN2")));
    v.push(marked!(E_UnkN2, ops::<E_UnkN2>("E_UnkN2")));
    v.push(marked!(U_UnkN2, enc_ops::<U_UnkN2>("U_UnkN2")));
    v.push(marked!(D_UnkN2, ops::<D_UnkN2>("D_UnkN2")));
    v.push(marked!(G_UnkN2, ops::<G_UnkN2>("G_UnkN2")));
    v.push(marked!(M_UnkN2, ops::<M_UnkN2>("M_UnkN2")));
    v.push(marked!(GN, ops::<GN>("GN")));
    v.push(marked!(GM, ops::<GM>("GM")));
    v.push(marked!(EK, ops::<EK>("EK")));
}
fn types49(v: &mut Vec<Ops>) {
    v.push(marked!(EM0, ops::<EM0>("EM0")));
    v.push(marked!(EM2, ops::<EM2>("EM2")));
    v.push(marked!(EM4, ops::<EM4>("EM4")));
    v.push(marked!(HE0, ops::<HE0>("HE0")));
    v.push(marked!(EE0, ops::<EE0>("EE0")));
    v.push(marked!(HE1, ops::<HE1>("HE1")));
    v.push(marked!(EE1, ops::<EE1>("EE1")));
    v.push(marked!(HE2, ops::<HE2>("HE2")));
    v.push(marked!(EE2, ops::<EE2>("EE2")));
    v.push(marked!(HE3, ops::<HE3>("HE3")));
    v.push(marked!(EE3, ops::<EE3>("EE3")));
    v.push(marked!(HE4, ops::<HE4>("HE4")));
    v.push(marked!(EE4, ops::<EE4>("EE4")));
    v.push(marked!(HE5, ops::<HE5>("HE5")));
    v.push(marked!(EE5, ops::<EE5>("EE5")));
    v.push(marked!(HE6, ops::<HE6>("HE6")));
    v.push(marked!(EE6, ops::<EE6>("EE6")));
    v.push(marked!(G<Own<0>>, ops::<G<Own<0>>>("G<Own<0>>")));
    v.push(marked!(GA<Own<0>>, ops::<GA<Own<0>>>("GA<Own<0>>")));
    v.push(marked!(GW<Own<0>>, ops::<GW<Own<0>>>("GW<Own<0>>")));
    v.push(marked!(GE<Own<0>>, ops::<GE<Own<0>>>("GE<Own<0>>")));
    v.push(marked!(G<GW<Own<0>>>, ops::<G<GW<Own<0>>>>("G<GW<Own<0>>>")));
    v.push(marked!(GE<G<Own<0>>>, ops::<GE<G<Own<0>>>>("GE<G<Own<0>>>")));
    v.push(marked!(GW<GW<Own<0>>>, ops::<GW<GW<Own<0>>>>("GW<GW<Own<0>>>")));
    v.push(marked!(Vec<GE<GW<Own<0>>>>, ops::<Vec<GE<GW<Own<0>>>>>("Vec<GE<GW<Own<0>>>>")));
    v.push(marked!(G<GE<Own<0>>>, ops::<G<GE<Own<0>>>>("G<GE<Own<0>>>")));
    v.push(marked!(GA<WT1>, ops::<GA<WT1>>("GA<WT1>")));
    v.push(marked!(G<Own<1>>, ops::<G<Own<1>>>("G<Own<1>>")));
    v.push(marked!(GA<Own<1>>, ops::<GA<Own<1>>>("GA<Own<1>>")));
    v.push(marked!(GW<Own<1>>, ops::<GW<Own<1>>>("GW<Own<1>>")));
    v.push(marked!(GE<Own<1>>, ops::<GE<Own<1>>>("GE<Own<1>>")));
    v.push(marked!(G<GW<Own<1>>>, ops::<G<GW<Own<1>>>>("G<GW<Own<1>>>")));
    v.push(marked!(GE<G<Own<1>>>, ops::<GE<G<Own<1>>>>("GE<G<Own<1>>>")));
    v.push(marked!(GW<GW<Own<1>>>, ops::<GW<GW<Own<1>>>>("GW<GW<Own<1>>>")));
    v.push(marked!(Vec<GE<GW<Own<1>>>>, ops::<Vec<GE<GW<Own<1>>>>>("Vec<GE<GW<Own<1>>>>")));
    v.push(marked!(G<GE<Own<1>>>, ops::<G<GE<Own<1>>>>("G<GE<Own<1>>>")));
    v.push(marked!(GA<Vec<Own<1>>>, ops::<GA<Vec<Own<1>>>>("GA<Vec<Own<1>>>")));
    v.push(marked!(G<Own<2>>, ops::<G<Own<2>>>("G<Own<2>>")));
    v.push(marked!(GA<Own<2>>, ops::<GA<Own<2>>>("GA<Own<2>>")));
    v.push(marked!(GW<Own<2>>, ops::<GW<Own<2>>>("GW<Own<2>>")));
    v.push(marked!(GE<Own<2>>, ops::<GE<Own<2>>>("GE<Own<2>>")));
    v.push(marked!(G<GW<Own<2>>>, ops::<G<GW<Own<2>>>>("G<GW<Own<2>>>")));
    v.push(marked!(GE<G<Own<2>>>, ops::<GE<G<Own<2>>>>("GE<G<Own<2>>>")));
    v.push(marked!(GW<GW<Own<2>>>, ops::<GW<GW<Own<2>>>>("GW<GW<Own<2>>>")));
    v.push(marked!(Vec<GE<GW<Own<2>>>>, ops::<Vec<GE<GW<Own<2>>>>>("Vec<GE<GW<Own<2>>>>")));
    v.push(marked!(G<GE<Own<2>>>, ops::<G<GE<Own<2>>>>("G<GE<Own<2>>>")));
    v.push(marked!(GA<Vec<Own<2>>>, ops::<GA<Vec<Own<2>>>>("GA<Vec<Own<2>>>")));
    v.push(marked!(G<Own<3>>, ops::<G<Own<3>>>("G<Own<3>>")));
    v.push(marked!(GA<Own<3>>, ops::<GA<Own<3>>>("GA<Own<3>>")));
    v.push(marked!(GW<Own<3>>, ops::<GW<Own<3>>>("GW<Own<3>>")));
}
fn types50(v: &mut Vec<Ops>) {
    v.push(marked!(GE<Own<3>>, ops::<GE<Own<3>>>("GE<Own<3>>")));
    v.push(marked!(G<GW<Own<3>>>, ops::<G<GW<Own<3>>>>("G<GW<Own<3>>>")));
    v.push(marked!(GE<G<Own<3>>>, ops::<GE<G<Own<3>>>>("GE<G<Own<3>>>")));
    v.push(marked!(GW<GW<Own<3>>>, ops::<GW<GW<Own<3>>>>("GW<GW<Own<3>>>")));
    v.push(marked!(Vec<GE<GW<Own<3>>>>, ops::<Vec<GE<GW<Own<3>>>>>("Vec<GE<GW<Own<3>>>>")));
    v.push(marked!(G<GE<Own<3>>>, ops::<G<GE<Own<3>>>>("G<GE<Own<3>>>")));
    v.push(marked!(GA<Vec<Own<3>>>, ops::<GA<Vec<Own<3>>>>("GA<Vec<Own<3>>>")));
    v.push(marked!(G<Own<4>>, ops::<G<Own<4>>>("G<Own<4>>")));
    v.push(marked!(GA<Own<4>>, ops::<GA<Own<4>>>("GA<Own<4>>")));
    v.push(marked!(GW<Own<4>>, ops::<GW<Own<4>>>("GW<Own<4>>")));
    v.push(marked!(GE<Own<4>>, ops::<GE<Own<4>>>("GE<Own<4>>")));
    v.push(marked!(G<GW<Own<4>>>, ops::<G<GW<Own<4>>>>("G<GW<Own<4>>>")));
    v.push(marked!(GE<G<Own<4>>>, ops::<GE<G<Own<4>>>>("GE<G<Own<4>>>")));
    v.push(marked!(GW<GW<Own<4>>>, ops::<GW<GW<Own<4>>>>("GW<GW<Own<4>>>")));
    v.push(marked!(Vec<GE<GW<Own<4>>>>, ops::<Vec<GE<GW<Own<4>>>>>("Vec<GE<GW<Own<4>>>>")));
    v.push(marked!(G<GE<Own<4>>>, ops::<G<GE<Own<4>>>>("G<GE<Own<4>>>")));
    v.push(marked!(GA<Vec<Own<4>>>, ops::<GA<Vec<Own<4>>>>("GA<Vec<Own<4>>>")));
}
