// Written by tools/gen_serde.py. Do not edit.
#![allow(clippy::all, unused, dead_code, non_camel_case_types)]
use std::collections::*;
use std::sync::Arc;

use mccore::model::*;
use oasis_cbor::{Decode, Encode, Value};
use serde::{Deserialize, Serialize};
use serde_bytes::ByteBuf;
use crate::serde_subj::*;
use mctyped::schema::*;
use mctyped::subj::*;
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct SN { pub x: u8, pub long_field_name_of_its_own: String }
impl Subj for SN {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("x"), <u8 as Subj>::ty()), fld(t("long_field_name_of_its_own"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "SN".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let SN { x: x0, long_field_name_of_its_own: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        SN { x: Subj::from_d(&v[0]), long_field_name_of_its_own: Subj::from_d(&v[1]) }
    }
}
impl Default for SN {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum EN {
    Nil,
    Num(i32),
    Zz,
    Two(u8, bool),
    Rec { b: u8, aa: String },
}
impl Subj for EN {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "EN".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Nil"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Num"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <i32 as Subj>::ty())] },
            VariantTy { key: t("Zz"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Two"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <bool as Subj>::ty())] },
            VariantTy { key: t("Rec"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("b"), <u8 as Subj>::ty()), fld(t("aa"), <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            EN::Nil => D::Var(0, vec![]),
            EN::Num(x0) => D::Var(1, vec![x0.to_d()]),
            EN::Zz => D::Var(2, vec![]),
            EN::Two(x0, x1) => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            EN::Rec { b: x0, aa: x1 } => D::Var(4, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => EN::Nil,
            1 => EN::Num(Subj::from_d(&v[0])),
            2 => EN::Zz,
            3 => EN::Two(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            4 => EN::Rec { b: Subj::from_d(&v[0]), aa: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for EN {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize, Encode, Decode)]
#[cbor(no_default)]
pub struct SKey(pub u8, pub String);
impl Subj for SKey {
    fn ty() -> Ty {
        let fields = vec![fld(NULL, u8::ty()), fld(NULL, String::ty())];
        Ty::Struct(Arc::new(StructTy { name: "SKey".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default: None }))
    }
    fn to_d(&self) -> D {
        D::Seq(vec![self.0.to_d(), self.1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        SKey(Subj::from_d(&d.seq()[0]), Subj::from_d(&d.seq()[1]))
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct Unit0;
impl Subj for Unit0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Unit0".into(), shape: Shape::Unit, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Unit0 = self;
        D::Seq(vec![])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Unit0
    }
}
impl Default for Unit0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct None0 {  }
impl Subj for None0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "None0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let None0 {  } = self;
        D::Seq(vec![])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        None0 {  }
    }
}
impl Default for None0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct Tup0();
impl Subj for Tup0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Tup0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Tup0() = self;
        D::Seq(vec![])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Tup0()
    }
}
impl Default for Tup0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AN0 { pub only: u8 }
impl Subj for AN0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AN0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AN0 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AN0 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for AN0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AW0(pub u8);
impl Subj for AW0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW0(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW0(Subj::from_d(&v[0]))
    }
}
impl Default for AW0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AP0 { pub bb: u8, pub a: u64, pub cc: u8 }
impl Subj for AP0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <u64 as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AP0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AP0 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AP0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for AP0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AT0(pub u8, pub u64);
impl Subj for AT0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u64 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AT0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AT0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AT0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for AT0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum AE0 {
    U,
    N(u8),
    Tu(u8, u8),
    R { bb: u8, a: u64 },
    E0 {  },
    T0(),
    Last,
}
impl Subj for AE0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "AE0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u8 as Subj>::ty()), fld(t("a"), <u64 as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            AE0::U => D::Var(0, vec![]),
            AE0::N(x0) => D::Var(1, vec![x0.to_d()]),
            AE0::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            AE0::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            AE0::E0 {  } => D::Var(4, vec![]),
            AE0::T0() => D::Var(5, vec![]),
            AE0::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => AE0::U,
            1 => AE0::N(Subj::from_d(&v[0])),
            2 => AE0::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => AE0::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => AE0::E0 {  },
            5 => AE0::T0(),
            6 => AE0::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AN1 { pub only: u16 }
impl Subj for AN1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <u16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AN1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AN1 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AN1 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for AN1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AW1(pub u16);
impl Subj for AW1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW1(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW1(Subj::from_d(&v[0]))
    }
}
impl Default for AW1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AP1 { pub bb: u16, pub a: Option<u16>, pub cc: u8 }
impl Subj for AP1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u16 as Subj>::ty()), fld(t("a"), <Option<u16> as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AP1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AP1 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AP1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for AP1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AT1(pub u16, pub Option<u16>);
impl Subj for AT1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u16 as Subj>::ty()), fld(NULL, <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AT1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AT1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AT1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for AT1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum AE1 {
    U,
    N(u16),
    Tu(u16, u8),
    R { bb: u16, a: Option<u16> },
    E0 {  },
    T0(),
    Last,
}
impl Subj for AE1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "AE1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u16 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u16 as Subj>::ty()), fld(t("a"), <Option<u16> as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            AE1::U => D::Var(0, vec![]),
            AE1::N(x0) => D::Var(1, vec![x0.to_d()]),
            AE1::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            AE1::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            AE1::E0 {  } => D::Var(4, vec![]),
            AE1::T0() => D::Var(5, vec![]),
            AE1::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => AE1::U,
            1 => AE1::N(Subj::from_d(&v[0])),
            2 => AE1::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => AE1::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => AE1::E0 {  },
            5 => AE1::T0(),
            6 => AE1::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AN2 { pub only: i8 }
impl Subj for AN2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AN2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AN2 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AN2 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for AN2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AW2(pub i8);
impl Subj for AW2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW2(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW2(Subj::from_d(&v[0]))
    }
}
impl Default for AW2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AP2 { pub bb: i8, pub a: EN, pub cc: u8 }
impl Subj for AP2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <i8 as Subj>::ty()), fld(t("a"), <EN as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AP2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AP2 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AP2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for AP2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AT2(pub i8, pub EN);
impl Subj for AT2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <i8 as Subj>::ty()), fld(NULL, <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AT2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AT2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AT2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for AT2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum AE2 {
    U,
    N(i8),
    Tu(i8, u8),
    R { bb: i8, a: EN },
    E0 {  },
    T0(),
    Last,
}
impl Subj for AE2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "AE2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <i8 as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <i8 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <i8 as Subj>::ty()), fld(t("a"), <EN as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            AE2::U => D::Var(0, vec![]),
            AE2::N(x0) => D::Var(1, vec![x0.to_d()]),
            AE2::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            AE2::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            AE2::E0 {  } => D::Var(4, vec![]),
            AE2::T0() => D::Var(5, vec![]),
            AE2::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => AE2::U,
            1 => AE2::N(Subj::from_d(&v[0])),
            2 => AE2::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => AE2::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => AE2::E0 {  },
            5 => AE2::T0(),
            6 => AE2::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AN3 { pub only: u64 }
impl Subj for AN3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <u64 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AN3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AN3 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AN3 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for AN3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AW3(pub u64);
impl Subj for AW3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u64 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW3(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW3(Subj::from_d(&v[0]))
    }
}
impl Default for AW3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AP3 { pub bb: u64, pub a: Vec<Vec<String>>, pub cc: u8 }
impl Subj for AP3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u64 as Subj>::ty()), fld(t("a"), <Vec<Vec<String>> as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AP3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AP3 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AP3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for AP3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AT3(pub u64, pub Vec<Vec<String>>);
impl Subj for AT3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u64 as Subj>::ty()), fld(NULL, <Vec<Vec<String>> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AT3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AT3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AT3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for AT3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum AE3 {
    U,
    N(u64),
    Tu(u64, u8),
    R { bb: u64, a: Vec<Vec<String>> },
    E0 {  },
    T0(),
    Last,
}
impl Subj for AE3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "AE3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u64 as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u64 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u64 as Subj>::ty()), fld(t("a"), <Vec<Vec<String>> as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            AE3::U => D::Var(0, vec![]),
            AE3::N(x0) => D::Var(1, vec![x0.to_d()]),
            AE3::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            AE3::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            AE3::E0 {  } => D::Var(4, vec![]),
            AE3::T0() => D::Var(5, vec![]),
            AE3::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => AE3::U,
            1 => AE3::N(Subj::from_d(&v[0])),
            2 => AE3::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => AE3::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => AE3::E0 {  },
            5 => AE3::T0(),
            6 => AE3::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AN4 { pub only: i64 }
impl Subj for AN4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <i64 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AN4".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AN4 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AN4 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for AN4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AW4(pub i64);
impl Subj for AW4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <i64 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW4".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW4(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW4(Subj::from_d(&v[0]))
    }
}
impl Default for AW4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AP4 { pub bb: i64, pub a: i8, pub cc: u8 }
impl Subj for AP4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <i64 as Subj>::ty()), fld(t("a"), <i8 as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AP4".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AP4 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AP4 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for AP4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AT4(pub i64, pub i8);
impl Subj for AT4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <i64 as Subj>::ty()), fld(NULL, <i8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AT4".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AT4(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AT4(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for AT4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum AE4 {
    U,
    N(i64),
    Tu(i64, u8),
    R { bb: i64, a: i8 },
    E0 {  },
    T0(),
    Last,
}
impl Subj for AE4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "AE4".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <i64 as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <i64 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <i64 as Subj>::ty()), fld(t("a"), <i8 as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            AE4::U => D::Var(0, vec![]),
            AE4::N(x0) => D::Var(1, vec![x0.to_d()]),
            AE4::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            AE4::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            AE4::E0 {  } => D::Var(4, vec![]),
            AE4::T0() => D::Var(5, vec![]),
            AE4::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => AE4::U,
            1 => AE4::N(Subj::from_d(&v[0])),
            2 => AE4::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => AE4::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => AE4::E0 {  },
            5 => AE4::T0(),
            6 => AE4::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AN5 { pub only: u128 }
impl Subj for AN5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <u128 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AN5".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AN5 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AN5 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for AN5 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AW5(pub u128);
impl Subj for AW5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u128 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW5".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW5(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW5(Subj::from_d(&v[0]))
    }
}
impl Default for AW5 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AP5 { pub bb: u128, pub a: (), pub cc: u8 }
impl Subj for AP5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <u128 as Subj>::ty()), fld(t("a"), <() as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AP5".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AP5 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AP5 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for AP5 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AT5(pub u128, pub ());
impl Subj for AT5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u128 as Subj>::ty()), fld(NULL, <() as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AT5".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AT5(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AT5(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for AT5 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum AE5 {
    U,
    N(u128),
    Tu(u128, u8),
    R { bb: u128, a: () },
    E0 {  },
    T0(),
    Last,
}
impl Subj for AE5 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "AE5".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u128 as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u128 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <u128 as Subj>::ty()), fld(t("a"), <() as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            AE5::U => D::Var(0, vec![]),
            AE5::N(x0) => D::Var(1, vec![x0.to_d()]),
            AE5::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            AE5::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            AE5::E0 {  } => D::Var(4, vec![]),
            AE5::T0() => D::Var(5, vec![]),
            AE5::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => AE5::U,
            1 => AE5::N(Subj::from_d(&v[0])),
            2 => AE5::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => AE5::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => AE5::E0 {  },
            5 => AE5::T0(),
            6 => AE5::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AN6 { pub only: bool }
impl Subj for AN6 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AN6".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AN6 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AN6 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for AN6 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AW6(pub bool);
impl Subj for AW6 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW6".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW6(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW6(Subj::from_d(&v[0]))
    }
}
impl Default for AW6 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AP6 { pub bb: bool, pub a: SN, pub cc: u8 }
impl Subj for AP6 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <bool as Subj>::ty()), fld(t("a"), <SN as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AP6".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AP6 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AP6 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for AP6 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AT6(pub bool, pub SN);
impl Subj for AT6 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <bool as Subj>::ty()), fld(NULL, <SN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AT6".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AT6(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AT6(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for AT6 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum AE6 {
    U,
    N(bool),
    Tu(bool, u8),
    R { bb: bool, a: SN },
    E0 {  },
    T0(),
    Last,
}
impl Subj for AE6 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "AE6".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <bool as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <bool as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <bool as Subj>::ty()), fld(t("a"), <SN as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            AE6::U => D::Var(0, vec![]),
            AE6::N(x0) => D::Var(1, vec![x0.to_d()]),
            AE6::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            AE6::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            AE6::E0 {  } => D::Var(4, vec![]),
            AE6::T0() => D::Var(5, vec![]),
            AE6::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => AE6::U,
            1 => AE6::N(Subj::from_d(&v[0])),
            2 => AE6::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => AE6::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => AE6::E0 {  },
            5 => AE6::T0(),
            6 => AE6::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AN7 { pub only: char }
impl Subj for AN7 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <char as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AN7".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AN7 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AN7 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for AN7 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AW7(pub char);
impl Subj for AW7 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <char as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW7".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW7(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW7(Subj::from_d(&v[0]))
    }
}
impl Default for AW7 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AP7 { pub bb: char, pub a: BTreeMap<SKey, i8>, pub cc: u8 }
impl Subj for AP7 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <char as Subj>::ty()), fld(t("a"), <BTreeMap<SKey, i8> as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AP7".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AP7 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AP7 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for AP7 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AT7(pub char, pub BTreeMap<SKey, i8>);
impl Subj for AT7 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <char as Subj>::ty()), fld(NULL, <BTreeMap<SKey, i8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AT7".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AT7(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AT7(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for AT7 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum AE7 {
    U,
    N(char),
    Tu(char, u8),
    R { bb: char, a: BTreeMap<SKey, i8> },
    E0 {  },
    T0(),
    Last,
}
impl Subj for AE7 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "AE7".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <char as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <char as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <char as Subj>::ty()), fld(t("a"), <BTreeMap<SKey, i8> as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            AE7::U => D::Var(0, vec![]),
            AE7::N(x0) => D::Var(1, vec![x0.to_d()]),
            AE7::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            AE7::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            AE7::E0 {  } => D::Var(4, vec![]),
            AE7::T0() => D::Var(5, vec![]),
            AE7::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => AE7::U,
            1 => AE7::N(Subj::from_d(&v[0])),
            2 => AE7::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => AE7::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => AE7::E0 {  },
            5 => AE7::T0(),
            6 => AE7::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AN8 { pub only: String }
impl Subj for AN8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AN8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AN8 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AN8 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for AN8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AW8(pub String);
impl Subj for AW8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW8".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW8(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW8(Subj::from_d(&v[0]))
    }
}
impl Default for AW8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AP8 { pub bb: String, pub a: u16, pub cc: u8 }
impl Subj for AP8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <String as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AP8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AP8 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AP8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for AP8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AT8(pub String, pub u16);
impl Subj for AT8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <String as Subj>::ty()), fld(NULL, <u16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AT8".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AT8(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AT8(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for AT8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum AE8 {
    U,
    N(String),
    Tu(String, u8),
    R { bb: String, a: u16 },
    E0 {  },
    T0(),
    Last,
}
impl Subj for AE8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "AE8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <String as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <String as Subj>::ty()), fld(t("a"), <u16 as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            AE8::U => D::Var(0, vec![]),
            AE8::N(x0) => D::Var(1, vec![x0.to_d()]),
            AE8::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            AE8::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            AE8::E0 {  } => D::Var(4, vec![]),
            AE8::T0() => D::Var(5, vec![]),
            AE8::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => AE8::U,
            1 => AE8::N(Subj::from_d(&v[0])),
            2 => AE8::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => AE8::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => AE8::E0 {  },
            5 => AE8::T0(),
            6 => AE8::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AN9 { pub only: () }
impl Subj for AN9 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <() as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AN9".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AN9 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AN9 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for AN9 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AW9(pub ());
impl Subj for AW9 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <() as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW9".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW9(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW9(Subj::from_d(&v[0]))
    }
}
impl Default for AW9 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AP9 { pub bb: (), pub a: String, pub cc: u8 }
impl Subj for AP9 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <() as Subj>::ty()), fld(t("a"), <String as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AP9".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AP9 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AP9 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for AP9 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AT9(pub (), pub String);
impl Subj for AT9 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <() as Subj>::ty()), fld(NULL, <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AT9".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AT9(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AT9(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for AT9 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum AE9 {
    U,
    N(()),
    Tu((), u8),
    R { bb: (), a: String },
    E0 {  },
    T0(),
    Last,
}
impl Subj for AE9 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "AE9".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <() as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <() as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <() as Subj>::ty()), fld(t("a"), <String as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            AE9::U => D::Var(0, vec![]),
            AE9::N(x0) => D::Var(1, vec![x0.to_d()]),
            AE9::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            AE9::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            AE9::E0 {  } => D::Var(4, vec![]),
            AE9::T0() => D::Var(5, vec![]),
            AE9::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => AE9::U,
            1 => AE9::N(Subj::from_d(&v[0])),
            2 => AE9::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => AE9::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => AE9::E0 {  },
            5 => AE9::T0(),
            6 => AE9::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AN10 { pub only: Option<u16> }
impl Subj for AN10 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AN10".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AN10 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AN10 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for AN10 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AW10(pub Option<u16>);
impl Subj for AW10 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW10".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW10(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW10(Subj::from_d(&v[0]))
    }
}
impl Default for AW10 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AP10 { pub bb: Option<u16>, pub a: BTreeMap<u8, EN>, pub cc: u8 }
impl Subj for AP10 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t("a"), <BTreeMap<u8, EN> as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AP10".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AP10 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AP10 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for AP10 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AT10(pub Option<u16>, pub BTreeMap<u8, EN>);
impl Subj for AT10 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<u16> as Subj>::ty()), fld(NULL, <BTreeMap<u8, EN> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AT10".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AT10(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AT10(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for AT10 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum AE10 {
    U,
    N(Option<u16>),
    Tu(Option<u16>, u8),
    R { bb: Option<u16>, a: BTreeMap<u8, EN> },
    E0 {  },
    T0(),
    Last,
}
impl Subj for AE10 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "AE10".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u16> as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<u16> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <Option<u16> as Subj>::ty()), fld(t("a"), <BTreeMap<u8, EN> as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            AE10::U => D::Var(0, vec![]),
            AE10::N(x0) => D::Var(1, vec![x0.to_d()]),
            AE10::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            AE10::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            AE10::E0 {  } => D::Var(4, vec![]),
            AE10::T0() => D::Var(5, vec![]),
            AE10::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => AE10::U,
            1 => AE10::N(Subj::from_d(&v[0])),
            2 => AE10::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => AE10::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => AE10::E0 {  },
            5 => AE10::T0(),
            6 => AE10::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AN11 { pub only: Option<String> }
impl Subj for AN11 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <Option<String> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AN11".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AN11 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AN11 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for AN11 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AW11(pub Option<String>);
impl Subj for AW11 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<String> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW11".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW11(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW11(Subj::from_d(&v[0]))
    }
}
impl Default for AW11 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AP11 { pub bb: Option<String>, pub a: Vec<SN>, pub cc: u8 }
impl Subj for AP11 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<String> as Subj>::ty()), fld(t("a"), <Vec<SN> as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AP11".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AP11 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AP11 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for AP11 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AT11(pub Option<String>, pub Vec<SN>);
impl Subj for AT11 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<String> as Subj>::ty()), fld(NULL, <Vec<SN> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AT11".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AT11(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AT11(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for AT11 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum AE11 {
    U,
    N(Option<String>),
    Tu(Option<String>, u8),
    R { bb: Option<String>, a: Vec<SN> },
    E0 {  },
    T0(),
    Last,
}
impl Subj for AE11 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "AE11".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<String> as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<String> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <Option<String> as Subj>::ty()), fld(t("a"), <Vec<SN> as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            AE11::U => D::Var(0, vec![]),
            AE11::N(x0) => D::Var(1, vec![x0.to_d()]),
            AE11::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            AE11::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            AE11::E0 {  } => D::Var(4, vec![]),
            AE11::T0() => D::Var(5, vec![]),
            AE11::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => AE11::U,
            1 => AE11::N(Subj::from_d(&v[0])),
            2 => AE11::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => AE11::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => AE11::E0 {  },
            5 => AE11::T0(),
            6 => AE11::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AN12 { pub only: Vec<u16> }
impl Subj for AN12 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <Vec<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AN12".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AN12 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AN12 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for AN12 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AW12(pub Vec<u16>);
impl Subj for AW12 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW12".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW12(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW12(Subj::from_d(&v[0]))
    }
}
impl Default for AW12 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AP12 { pub bb: Vec<u16>, pub a: u8, pub cc: u8 }
impl Subj for AP12 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<u16> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AP12".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AP12 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AP12 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for AP12 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AT12(pub Vec<u16>, pub u8);
impl Subj for AT12 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<u16> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AT12".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AT12(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AT12(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for AT12 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum AE12 {
    U,
    N(Vec<u16>),
    Tu(Vec<u16>, u8),
    R { bb: Vec<u16>, a: u8 },
    E0 {  },
    T0(),
    Last,
}
impl Subj for AE12 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "AE12".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u16> as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u16> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <Vec<u16> as Subj>::ty()), fld(t("a"), <u8 as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            AE12::U => D::Var(0, vec![]),
            AE12::N(x0) => D::Var(1, vec![x0.to_d()]),
            AE12::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            AE12::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            AE12::E0 {  } => D::Var(4, vec![]),
            AE12::T0() => D::Var(5, vec![]),
            AE12::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => AE12::U,
            1 => AE12::N(Subj::from_d(&v[0])),
            2 => AE12::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => AE12::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => AE12::E0 {  },
            5 => AE12::T0(),
            6 => AE12::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AN13 { pub only: (u8, String) }
impl Subj for AN13 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <(u8, String) as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AN13".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AN13 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AN13 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for AN13 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AW13(pub (u8, String));
impl Subj for AW13 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(u8, String) as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW13".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW13(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW13(Subj::from_d(&v[0]))
    }
}
impl Default for AW13 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AP13 { pub bb: (u8, String), pub a: char, pub cc: u8 }
impl Subj for AP13 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(u8, String) as Subj>::ty()), fld(t("a"), <char as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AP13".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AP13 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AP13 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for AP13 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AT13(pub (u8, String), pub char);
impl Subj for AT13 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(u8, String) as Subj>::ty()), fld(NULL, <char as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AT13".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AT13(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AT13(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for AT13 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum AE13 {
    U,
    N((u8, String)),
    Tu((u8, String), u8),
    R { bb: (u8, String), a: char },
    E0 {  },
    T0(),
    Last,
}
impl Subj for AE13 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "AE13".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <(u8, String) as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <(u8, String) as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <(u8, String) as Subj>::ty()), fld(t("a"), <char as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            AE13::U => D::Var(0, vec![]),
            AE13::N(x0) => D::Var(1, vec![x0.to_d()]),
            AE13::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            AE13::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            AE13::E0 {  } => D::Var(4, vec![]),
            AE13::T0() => D::Var(5, vec![]),
            AE13::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => AE13::U,
            1 => AE13::N(Subj::from_d(&v[0])),
            2 => AE13::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => AE13::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => AE13::E0 {  },
            5 => AE13::T0(),
            6 => AE13::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AN14 { pub only: BTreeMap<String, u8> }
impl Subj for AN14 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <BTreeMap<String, u8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AN14".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AN14 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AN14 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for AN14 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AW14(pub BTreeMap<String, u8>);
impl Subj for AW14 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW14".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW14(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW14(Subj::from_d(&v[0]))
    }
}
impl Default for AW14 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AP14 { pub bb: BTreeMap<String, u8>, pub a: BTreeMap<String, u8>, pub cc: u8 }
impl Subj for AP14 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <BTreeMap<String, u8> as Subj>::ty()), fld(t("a"), <BTreeMap<String, u8> as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AP14".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AP14 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AP14 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for AP14 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AT14(pub BTreeMap<String, u8>, pub BTreeMap<String, u8>);
impl Subj for AT14 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty()), fld(NULL, <BTreeMap<String, u8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AT14".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AT14(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AT14(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for AT14 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum AE14 {
    U,
    N(BTreeMap<String, u8>),
    Tu(BTreeMap<String, u8>, u8),
    R { bb: BTreeMap<String, u8>, a: BTreeMap<String, u8> },
    E0 {  },
    T0(),
    Last,
}
impl Subj for AE14 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "AE14".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, u8> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <BTreeMap<String, u8> as Subj>::ty()), fld(t("a"), <BTreeMap<String, u8> as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            AE14::U => D::Var(0, vec![]),
            AE14::N(x0) => D::Var(1, vec![x0.to_d()]),
            AE14::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            AE14::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            AE14::E0 {  } => D::Var(4, vec![]),
            AE14::T0() => D::Var(5, vec![]),
            AE14::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => AE14::U,
            1 => AE14::N(Subj::from_d(&v[0])),
            2 => AE14::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => AE14::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => AE14::E0 {  },
            5 => AE14::T0(),
            6 => AE14::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AN15 { pub only: BTreeMap<u8, EN> }
impl Subj for AN15 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <BTreeMap<u8, EN> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AN15".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AN15 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AN15 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for AN15 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AW15(pub BTreeMap<u8, EN>);
impl Subj for AW15 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <BTreeMap<u8, EN> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW15".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW15(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW15(Subj::from_d(&v[0]))
    }
}
impl Default for AW15 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AP15 { pub bb: BTreeMap<u8, EN>, pub a: Vec<EN>, pub cc: u8 }
impl Subj for AP15 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <BTreeMap<u8, EN> as Subj>::ty()), fld(t("a"), <Vec<EN> as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AP15".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AP15 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AP15 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for AP15 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AT15(pub BTreeMap<u8, EN>, pub Vec<EN>);
impl Subj for AT15 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <BTreeMap<u8, EN> as Subj>::ty()), fld(NULL, <Vec<EN> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AT15".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AT15(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AT15(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for AT15 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum AE15 {
    U,
    N(BTreeMap<u8, EN>),
    Tu(BTreeMap<u8, EN>, u8),
    R { bb: BTreeMap<u8, EN>, a: Vec<EN> },
    E0 {  },
    T0(),
    Last,
}
impl Subj for AE15 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "AE15".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<u8, EN> as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<u8, EN> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <BTreeMap<u8, EN> as Subj>::ty()), fld(t("a"), <Vec<EN> as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            AE15::U => D::Var(0, vec![]),
            AE15::N(x0) => D::Var(1, vec![x0.to_d()]),
            AE15::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            AE15::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            AE15::E0 {  } => D::Var(4, vec![]),
            AE15::T0() => D::Var(5, vec![]),
            AE15::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => AE15::U,
            1 => AE15::N(Subj::from_d(&v[0])),
            2 => AE15::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => AE15::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => AE15::E0 {  },
            5 => AE15::T0(),
            6 => AE15::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AN16 { pub only: SN }
impl Subj for AN16 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <SN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AN16".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AN16 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AN16 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for AN16 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AW16(pub SN);
impl Subj for AW16 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <SN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW16".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW16(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW16(Subj::from_d(&v[0]))
    }
}
impl Default for AW16 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AP16 { pub bb: SN, pub a: BTreeSet<i8>, pub cc: u8 }
impl Subj for AP16 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <SN as Subj>::ty()), fld(t("a"), <BTreeSet<i8> as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AP16".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AP16 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AP16 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for AP16 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AT16(pub SN, pub BTreeSet<i8>);
impl Subj for AT16 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <SN as Subj>::ty()), fld(NULL, <BTreeSet<i8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AT16".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AT16(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AT16(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for AT16 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum AE16 {
    U,
    N(SN),
    Tu(SN, u8),
    R { bb: SN, a: BTreeSet<i8> },
    E0 {  },
    T0(),
    Last,
}
impl Subj for AE16 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "AE16".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <SN as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <SN as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <SN as Subj>::ty()), fld(t("a"), <BTreeSet<i8> as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            AE16::U => D::Var(0, vec![]),
            AE16::N(x0) => D::Var(1, vec![x0.to_d()]),
            AE16::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            AE16::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            AE16::E0 {  } => D::Var(4, vec![]),
            AE16::T0() => D::Var(5, vec![]),
            AE16::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => AE16::U,
            1 => AE16::N(Subj::from_d(&v[0])),
            2 => AE16::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => AE16::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => AE16::E0 {  },
            5 => AE16::T0(),
            6 => AE16::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AN17 { pub only: EN }
impl Subj for AN17 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AN17".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AN17 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AN17 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for AN17 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AW17(pub EN);
impl Subj for AW17 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <EN as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW17".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW17(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW17(Subj::from_d(&v[0]))
    }
}
impl Default for AW17 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AP17 { pub bb: EN, pub a: bool, pub cc: u8 }
impl Subj for AP17 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <EN as Subj>::ty()), fld(t("a"), <bool as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AP17".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AP17 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AP17 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for AP17 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AT17(pub EN, pub bool);
impl Subj for AT17 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <EN as Subj>::ty()), fld(NULL, <bool as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AT17".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AT17(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AT17(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for AT17 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum AE17 {
    U,
    N(EN),
    Tu(EN, u8),
    R { bb: EN, a: bool },
    E0 {  },
    T0(),
    Last,
}
impl Subj for AE17 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "AE17".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <EN as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <EN as Subj>::ty()), fld(t("a"), <bool as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            AE17::U => D::Var(0, vec![]),
            AE17::N(x0) => D::Var(1, vec![x0.to_d()]),
            AE17::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            AE17::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            AE17::E0 {  } => D::Var(4, vec![]),
            AE17::T0() => D::Var(5, vec![]),
            AE17::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => AE17::U,
            1 => AE17::N(Subj::from_d(&v[0])),
            2 => AE17::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => AE17::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => AE17::E0 {  },
            5 => AE17::T0(),
            6 => AE17::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AN18 { pub only: Option<SN> }
impl Subj for AN18 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <Option<SN> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AN18".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AN18 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AN18 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for AN18 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AW18(pub Option<SN>);
impl Subj for AW18 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<SN> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW18".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW18(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW18(Subj::from_d(&v[0]))
    }
}
impl Default for AW18 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AP18 { pub bb: Option<SN>, pub a: (u8, String), pub cc: u8 }
impl Subj for AP18 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<SN> as Subj>::ty()), fld(t("a"), <(u8, String) as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AP18".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AP18 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AP18 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for AP18 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AT18(pub Option<SN>, pub (u8, String));
impl Subj for AT18 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<SN> as Subj>::ty()), fld(NULL, <(u8, String) as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AT18".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AT18(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AT18(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for AT18 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum AE18 {
    U,
    N(Option<SN>),
    Tu(Option<SN>, u8),
    R { bb: Option<SN>, a: (u8, String) },
    E0 {  },
    T0(),
    Last,
}
impl Subj for AE18 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "AE18".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<SN> as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<SN> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <Option<SN> as Subj>::ty()), fld(t("a"), <(u8, String) as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            AE18::U => D::Var(0, vec![]),
            AE18::N(x0) => D::Var(1, vec![x0.to_d()]),
            AE18::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            AE18::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            AE18::E0 {  } => D::Var(4, vec![]),
            AE18::T0() => D::Var(5, vec![]),
            AE18::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => AE18::U,
            1 => AE18::N(Subj::from_d(&v[0])),
            2 => AE18::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => AE18::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => AE18::E0 {  },
            5 => AE18::T0(),
            6 => AE18::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AN19 { pub only: Option<EN> }
impl Subj for AN19 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <Option<EN> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AN19".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AN19 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AN19 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for AN19 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AW19(pub Option<EN>);
impl Subj for AW19 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<EN> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW19".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW19(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW19(Subj::from_d(&v[0]))
    }
}
impl Default for AW19 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AP19 { pub bb: Option<EN>, pub a: [u16; 2], pub cc: u8 }
impl Subj for AP19 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<EN> as Subj>::ty()), fld(t("a"), <[u16; 2] as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AP19".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AP19 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AP19 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for AP19 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AT19(pub Option<EN>, pub [u16; 2]);
impl Subj for AT19 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<EN> as Subj>::ty()), fld(NULL, <[u16; 2] as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AT19".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AT19(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AT19(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for AT19 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum AE19 {
    U,
    N(Option<EN>),
    Tu(Option<EN>, u8),
    R { bb: Option<EN>, a: [u16; 2] },
    E0 {  },
    T0(),
    Last,
}
impl Subj for AE19 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "AE19".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<EN> as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<EN> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <Option<EN> as Subj>::ty()), fld(t("a"), <[u16; 2] as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            AE19::U => D::Var(0, vec![]),
            AE19::N(x0) => D::Var(1, vec![x0.to_d()]),
            AE19::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            AE19::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            AE19::E0 {  } => D::Var(4, vec![]),
            AE19::T0() => D::Var(5, vec![]),
            AE19::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => AE19::U,
            1 => AE19::N(Subj::from_d(&v[0])),
            2 => AE19::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => AE19::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => AE19::E0 {  },
            5 => AE19::T0(),
            6 => AE19::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AN20 { pub only: [u16; 2] }
impl Subj for AN20 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <[u16; 2] as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AN20".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AN20 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AN20 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for AN20 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AW20(pub [u16; 2]);
impl Subj for AW20 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <[u16; 2] as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW20".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW20(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW20(Subj::from_d(&v[0]))
    }
}
impl Default for AW20 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AP20 { pub bb: [u16; 2], pub a: HashMap<String, i64>, pub cc: u8 }
impl Subj for AP20 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <[u16; 2] as Subj>::ty()), fld(t("a"), <HashMap<String, i64> as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AP20".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AP20 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AP20 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for AP20 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AT20(pub [u16; 2], pub HashMap<String, i64>);
impl Subj for AT20 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <[u16; 2] as Subj>::ty()), fld(NULL, <HashMap<String, i64> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AT20".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AT20(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AT20(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for AT20 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum AE20 {
    U,
    N([u16; 2]),
    Tu([u16; 2], u8),
    R { bb: [u16; 2], a: HashMap<String, i64> },
    E0 {  },
    T0(),
    Last,
}
impl Subj for AE20 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "AE20".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <[u16; 2] as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <[u16; 2] as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <[u16; 2] as Subj>::ty()), fld(t("a"), <HashMap<String, i64> as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            AE20::U => D::Var(0, vec![]),
            AE20::N(x0) => D::Var(1, vec![x0.to_d()]),
            AE20::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            AE20::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            AE20::E0 {  } => D::Var(4, vec![]),
            AE20::T0() => D::Var(5, vec![]),
            AE20::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => AE20::U,
            1 => AE20::N(Subj::from_d(&v[0])),
            2 => AE20::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => AE20::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => AE20::E0 {  },
            5 => AE20::T0(),
            6 => AE20::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AN21 { pub only: Vec<EN> }
impl Subj for AN21 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <Vec<EN> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AN21".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AN21 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AN21 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for AN21 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AW21(pub Vec<EN>);
impl Subj for AW21 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<EN> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW21".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW21(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW21(Subj::from_d(&v[0]))
    }
}
impl Default for AW21 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AP21 { pub bb: Vec<EN>, pub a: u128, pub cc: u8 }
impl Subj for AP21 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<EN> as Subj>::ty()), fld(t("a"), <u128 as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AP21".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AP21 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AP21 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for AP21 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AT21(pub Vec<EN>, pub u128);
impl Subj for AT21 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<EN> as Subj>::ty()), fld(NULL, <u128 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AT21".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AT21(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AT21(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for AT21 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum AE21 {
    U,
    N(Vec<EN>),
    Tu(Vec<EN>, u8),
    R { bb: Vec<EN>, a: u128 },
    E0 {  },
    T0(),
    Last,
}
impl Subj for AE21 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "AE21".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<EN> as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<EN> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <Vec<EN> as Subj>::ty()), fld(t("a"), <u128 as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            AE21::U => D::Var(0, vec![]),
            AE21::N(x0) => D::Var(1, vec![x0.to_d()]),
            AE21::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            AE21::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            AE21::E0 {  } => D::Var(4, vec![]),
            AE21::T0() => D::Var(5, vec![]),
            AE21::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => AE21::U,
            1 => AE21::N(Subj::from_d(&v[0])),
            2 => AE21::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => AE21::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => AE21::E0 {  },
            5 => AE21::T0(),
            6 => AE21::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AN22 { pub only: Vec<SN> }
impl Subj for AN22 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <Vec<SN> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AN22".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AN22 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AN22 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for AN22 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AW22(pub Vec<SN>);
impl Subj for AW22 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<SN> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW22".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW22(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW22(Subj::from_d(&v[0]))
    }
}
impl Default for AW22 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AP22 { pub bb: Vec<SN>, pub a: Vec<u16>, pub cc: u8 }
impl Subj for AP22 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<SN> as Subj>::ty()), fld(t("a"), <Vec<u16> as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AP22".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AP22 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AP22 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for AP22 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AT22(pub Vec<SN>, pub Vec<u16>);
impl Subj for AT22 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<SN> as Subj>::ty()), fld(NULL, <Vec<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AT22".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AT22(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AT22(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for AT22 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum AE22 {
    U,
    N(Vec<SN>),
    Tu(Vec<SN>, u8),
    R { bb: Vec<SN>, a: Vec<u16> },
    E0 {  },
    T0(),
    Last,
}
impl Subj for AE22 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "AE22".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<SN> as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<SN> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <Vec<SN> as Subj>::ty()), fld(t("a"), <Vec<u16> as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            AE22::U => D::Var(0, vec![]),
            AE22::N(x0) => D::Var(1, vec![x0.to_d()]),
            AE22::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            AE22::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            AE22::E0 {  } => D::Var(4, vec![]),
            AE22::T0() => D::Var(5, vec![]),
            AE22::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => AE22::U,
            1 => AE22::N(Subj::from_d(&v[0])),
            2 => AE22::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => AE22::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => AE22::E0 {  },
            5 => AE22::T0(),
            6 => AE22::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AN23 { pub only: BTreeMap<SKey, i8> }
impl Subj for AN23 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <BTreeMap<SKey, i8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AN23".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AN23 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AN23 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for AN23 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AW23(pub BTreeMap<SKey, i8>);
impl Subj for AW23 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <BTreeMap<SKey, i8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW23".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW23(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW23(Subj::from_d(&v[0]))
    }
}
impl Default for AW23 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AP23 { pub bb: BTreeMap<SKey, i8>, pub a: Option<EN>, pub cc: u8 }
impl Subj for AP23 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <BTreeMap<SKey, i8> as Subj>::ty()), fld(t("a"), <Option<EN> as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AP23".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AP23 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AP23 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for AP23 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AT23(pub BTreeMap<SKey, i8>, pub Option<EN>);
impl Subj for AT23 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <BTreeMap<SKey, i8> as Subj>::ty()), fld(NULL, <Option<EN> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AT23".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AT23(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AT23(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for AT23 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum AE23 {
    U,
    N(BTreeMap<SKey, i8>),
    Tu(BTreeMap<SKey, i8>, u8),
    R { bb: BTreeMap<SKey, i8>, a: Option<EN> },
    E0 {  },
    T0(),
    Last,
}
impl Subj for AE23 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "AE23".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<SKey, i8> as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<SKey, i8> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <BTreeMap<SKey, i8> as Subj>::ty()), fld(t("a"), <Option<EN> as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            AE23::U => D::Var(0, vec![]),
            AE23::N(x0) => D::Var(1, vec![x0.to_d()]),
            AE23::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            AE23::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            AE23::E0 {  } => D::Var(4, vec![]),
            AE23::T0() => D::Var(5, vec![]),
            AE23::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => AE23::U,
            1 => AE23::N(Subj::from_d(&v[0])),
            2 => AE23::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => AE23::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => AE23::E0 {  },
            5 => AE23::T0(),
            6 => AE23::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AN24 { pub only: Vec<Vec<String>> }
impl Subj for AN24 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <Vec<Vec<String>> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AN24".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AN24 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AN24 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for AN24 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AW24(pub Vec<Vec<String>>);
impl Subj for AW24 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<Vec<String>> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW24".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW24(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW24(Subj::from_d(&v[0]))
    }
}
impl Default for AW24 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AP24 { pub bb: Vec<Vec<String>>, pub a: (EN, SN), pub cc: u8 }
impl Subj for AP24 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<Vec<String>> as Subj>::ty()), fld(t("a"), <(EN, SN) as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AP24".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AP24 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AP24 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for AP24 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AT24(pub Vec<Vec<String>>, pub (EN, SN));
impl Subj for AT24 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<Vec<String>> as Subj>::ty()), fld(NULL, <(EN, SN) as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AT24".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AT24(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AT24(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for AT24 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum AE24 {
    U,
    N(Vec<Vec<String>>),
    Tu(Vec<Vec<String>>, u8),
    R { bb: Vec<Vec<String>>, a: (EN, SN) },
    E0 {  },
    T0(),
    Last,
}
impl Subj for AE24 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "AE24".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<Vec<String>> as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<Vec<String>> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <Vec<Vec<String>> as Subj>::ty()), fld(t("a"), <(EN, SN) as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            AE24::U => D::Var(0, vec![]),
            AE24::N(x0) => D::Var(1, vec![x0.to_d()]),
            AE24::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            AE24::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            AE24::E0 {  } => D::Var(4, vec![]),
            AE24::T0() => D::Var(5, vec![]),
            AE24::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => AE24::U,
            1 => AE24::N(Subj::from_d(&v[0])),
            2 => AE24::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => AE24::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => AE24::E0 {  },
            5 => AE24::T0(),
            6 => AE24::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AN25 { pub only: Option<Vec<u16>> }
impl Subj for AN25 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <Option<Vec<u16>> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AN25".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AN25 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AN25 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for AN25 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AW25(pub Option<Vec<u16>>);
impl Subj for AW25 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<Vec<u16>> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW25".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW25(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW25(Subj::from_d(&v[0]))
    }
}
impl Default for AW25 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AP25 { pub bb: Option<Vec<u16>>, pub a: i64, pub cc: u8 }
impl Subj for AP25 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<Vec<u16>> as Subj>::ty()), fld(t("a"), <i64 as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AP25".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AP25 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AP25 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for AP25 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AT25(pub Option<Vec<u16>>, pub i64);
impl Subj for AT25 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<Vec<u16>> as Subj>::ty()), fld(NULL, <i64 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AT25".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AT25(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AT25(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for AT25 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum AE25 {
    U,
    N(Option<Vec<u16>>),
    Tu(Option<Vec<u16>>, u8),
    R { bb: Option<Vec<u16>>, a: i64 },
    E0 {  },
    T0(),
    Last,
}
impl Subj for AE25 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "AE25".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<Vec<u16>> as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<Vec<u16>> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <Option<Vec<u16>> as Subj>::ty()), fld(t("a"), <i64 as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            AE25::U => D::Var(0, vec![]),
            AE25::N(x0) => D::Var(1, vec![x0.to_d()]),
            AE25::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            AE25::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            AE25::E0 {  } => D::Var(4, vec![]),
            AE25::T0() => D::Var(5, vec![]),
            AE25::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => AE25::U,
            1 => AE25::N(Subj::from_d(&v[0])),
            2 => AE25::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => AE25::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => AE25::E0 {  },
            5 => AE25::T0(),
            6 => AE25::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AN26 { pub only: (EN, SN) }
impl Subj for AN26 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <(EN, SN) as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AN26".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AN26 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AN26 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for AN26 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AW26(pub (EN, SN));
impl Subj for AW26 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(EN, SN) as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW26".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW26(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW26(Subj::from_d(&v[0]))
    }
}
impl Default for AW26 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AP26 { pub bb: (EN, SN), pub a: Option<String>, pub cc: u8 }
impl Subj for AP26 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(EN, SN) as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AP26".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AP26 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AP26 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for AP26 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AT26(pub (EN, SN), pub Option<String>);
impl Subj for AT26 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(EN, SN) as Subj>::ty()), fld(NULL, <Option<String> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AT26".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AT26(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AT26(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for AT26 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum AE26 {
    U,
    N((EN, SN)),
    Tu((EN, SN), u8),
    R { bb: (EN, SN), a: Option<String> },
    E0 {  },
    T0(),
    Last,
}
impl Subj for AE26 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "AE26".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <(EN, SN) as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <(EN, SN) as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <(EN, SN) as Subj>::ty()), fld(t("a"), <Option<String> as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            AE26::U => D::Var(0, vec![]),
            AE26::N(x0) => D::Var(1, vec![x0.to_d()]),
            AE26::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            AE26::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            AE26::E0 {  } => D::Var(4, vec![]),
            AE26::T0() => D::Var(5, vec![]),
            AE26::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => AE26::U,
            1 => AE26::N(Subj::from_d(&v[0])),
            2 => AE26::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => AE26::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => AE26::E0 {  },
            5 => AE26::T0(),
            6 => AE26::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AN27 { pub only: HashMap<String, i64> }
impl Subj for AN27 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <HashMap<String, i64> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AN27".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AN27 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AN27 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for AN27 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AW27(pub HashMap<String, i64>);
impl Subj for AW27 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <HashMap<String, i64> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW27".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW27(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW27(Subj::from_d(&v[0]))
    }
}
impl Default for AW27 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AP27 { pub bb: HashMap<String, i64>, pub a: Option<SN>, pub cc: u8 }
impl Subj for AP27 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <HashMap<String, i64> as Subj>::ty()), fld(t("a"), <Option<SN> as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AP27".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AP27 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AP27 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for AP27 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AT27(pub HashMap<String, i64>, pub Option<SN>);
impl Subj for AT27 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <HashMap<String, i64> as Subj>::ty()), fld(NULL, <Option<SN> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AT27".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AT27(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AT27(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for AT27 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum AE27 {
    U,
    N(HashMap<String, i64>),
    Tu(HashMap<String, i64>, u8),
    R { bb: HashMap<String, i64>, a: Option<SN> },
    E0 {  },
    T0(),
    Last,
}
impl Subj for AE27 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "AE27".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <HashMap<String, i64> as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <HashMap<String, i64> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <HashMap<String, i64> as Subj>::ty()), fld(t("a"), <Option<SN> as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            AE27::U => D::Var(0, vec![]),
            AE27::N(x0) => D::Var(1, vec![x0.to_d()]),
            AE27::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            AE27::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            AE27::E0 {  } => D::Var(4, vec![]),
            AE27::T0() => D::Var(5, vec![]),
            AE27::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => AE27::U,
            1 => AE27::N(Subj::from_d(&v[0])),
            2 => AE27::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => AE27::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => AE27::E0 {  },
            5 => AE27::T0(),
            6 => AE27::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AN28 { pub only: BTreeSet<i8> }
impl Subj for AN28 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <BTreeSet<i8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AN28".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AN28 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AN28 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for AN28 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AW28(pub BTreeSet<i8>);
impl Subj for AW28 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <BTreeSet<i8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AW28".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AW28(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AW28(Subj::from_d(&v[0]))
    }
}
impl Default for AW28 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AP28 { pub bb: BTreeSet<i8>, pub a: Option<Vec<u16>>, pub cc: u8 }
impl Subj for AP28 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <BTreeSet<i8> as Subj>::ty()), fld(t("a"), <Option<Vec<u16>> as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AP28".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AP28 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AP28 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for AP28 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct AT28(pub BTreeSet<i8>, pub Option<Vec<u16>>);
impl Subj for AT28 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <BTreeSet<i8> as Subj>::ty()), fld(NULL, <Option<Vec<u16>> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "AT28".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let AT28(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        AT28(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for AT28 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum AE28 {
    U,
    N(BTreeSet<i8>),
    Tu(BTreeSet<i8>, u8),
    R { bb: BTreeSet<i8>, a: Option<Vec<u16>> },
    E0 {  },
    T0(),
    Last,
}
impl Subj for AE28 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "AE28".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeSet<i8> as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeSet<i8> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <BTreeSet<i8> as Subj>::ty()), fld(t("a"), <Option<Vec<u16>> as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            AE28::U => D::Var(0, vec![]),
            AE28::N(x0) => D::Var(1, vec![x0.to_d()]),
            AE28::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            AE28::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            AE28::E0 {  } => D::Var(4, vec![]),
            AE28::T0() => D::Var(5, vec![]),
            AE28::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => AE28::U,
            1 => AE28::N(Subj::from_d(&v[0])),
            2 => AE28::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => AE28::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => AE28::E0 {  },
            5 => AE28::T0(),
            6 => AE28::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BN0 { pub only: Vec<u8> }
impl Subj for BN0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <Vec<u8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BN0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BN0 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BN0 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for BN0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BW0(pub Vec<u8>);
impl Subj for BW0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<u8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BW0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BW0(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BW0(Subj::from_d(&v[0]))
    }
}
impl Default for BW0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BP0 { pub bb: Vec<u8>, pub a: Option<ByteBuf>, pub cc: u8 }
impl Subj for BP0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<u8> as Subj>::ty()), fld(t("a"), <Option<ByteBuf> as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BP0".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BP0 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BP0 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for BP0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BT0(pub Vec<u8>, pub Option<ByteBuf>);
impl Subj for BT0 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<u8> as Subj>::ty()), fld(NULL, <Option<ByteBuf> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BT0".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BT0(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BT0(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for BT0 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum BE0 {
    U,
    N(Vec<u8>),
    Tu(Vec<u8>, u8),
    R { bb: Vec<u8>, a: Option<ByteBuf> },
    E0 {  },
    T0(),
    Last,
}
impl Subj for BE0 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "BE0".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<u8> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <Vec<u8> as Subj>::ty()), fld(t("a"), <Option<ByteBuf> as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            BE0::U => D::Var(0, vec![]),
            BE0::N(x0) => D::Var(1, vec![x0.to_d()]),
            BE0::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            BE0::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            BE0::E0 {  } => D::Var(4, vec![]),
            BE0::T0() => D::Var(5, vec![]),
            BE0::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => BE0::U,
            1 => BE0::N(Subj::from_d(&v[0])),
            2 => BE0::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => BE0::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => BE0::E0 {  },
            5 => BE0::T0(),
            6 => BE0::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BN1 { pub only: ByteBuf }
impl Subj for BN1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <ByteBuf as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BN1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BN1 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BN1 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for BN1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BW1(pub ByteBuf);
impl Subj for BW1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <ByteBuf as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BW1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BW1(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BW1(Subj::from_d(&v[0]))
    }
}
impl Default for BW1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BP1 { pub bb: ByteBuf, pub a: (ByteBuf, Vec<u8>), pub cc: u8 }
impl Subj for BP1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <ByteBuf as Subj>::ty()), fld(t("a"), <(ByteBuf, Vec<u8>) as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BP1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BP1 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BP1 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for BP1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BT1(pub ByteBuf, pub (ByteBuf, Vec<u8>));
impl Subj for BT1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <ByteBuf as Subj>::ty()), fld(NULL, <(ByteBuf, Vec<u8>) as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BT1".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BT1(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BT1(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for BT1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum BE1 {
    U,
    N(ByteBuf),
    Tu(ByteBuf, u8),
    R { bb: ByteBuf, a: (ByteBuf, Vec<u8>) },
    E0 {  },
    T0(),
    Last,
}
impl Subj for BE1 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "BE1".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <ByteBuf as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <ByteBuf as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <ByteBuf as Subj>::ty()), fld(t("a"), <(ByteBuf, Vec<u8>) as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            BE1::U => D::Var(0, vec![]),
            BE1::N(x0) => D::Var(1, vec![x0.to_d()]),
            BE1::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            BE1::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            BE1::E0 {  } => D::Var(4, vec![]),
            BE1::T0() => D::Var(5, vec![]),
            BE1::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => BE1::U,
            1 => BE1::N(Subj::from_d(&v[0])),
            2 => BE1::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => BE1::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => BE1::E0 {  },
            5 => BE1::T0(),
            6 => BE1::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BN2 { pub only: [u8; 3] }
impl Subj for BN2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <[u8; 3] as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BN2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BN2 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BN2 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for BN2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BW2(pub [u8; 3]);
impl Subj for BW2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <[u8; 3] as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BW2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BW2(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BW2(Subj::from_d(&v[0]))
    }
}
impl Default for BW2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BP2 { pub bb: [u8; 3], pub a: BTreeMap<ByteBuf, u8>, pub cc: u8 }
impl Subj for BP2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <[u8; 3] as Subj>::ty()), fld(t("a"), <BTreeMap<ByteBuf, u8> as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BP2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BP2 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BP2 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for BP2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BT2(pub [u8; 3], pub BTreeMap<ByteBuf, u8>);
impl Subj for BT2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <[u8; 3] as Subj>::ty()), fld(NULL, <BTreeMap<ByteBuf, u8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BT2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BT2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BT2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for BT2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum BE2 {
    U,
    N([u8; 3]),
    Tu([u8; 3], u8),
    R { bb: [u8; 3], a: BTreeMap<ByteBuf, u8> },
    E0 {  },
    T0(),
    Last,
}
impl Subj for BE2 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "BE2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <[u8; 3] as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <[u8; 3] as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <[u8; 3] as Subj>::ty()), fld(t("a"), <BTreeMap<ByteBuf, u8> as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            BE2::U => D::Var(0, vec![]),
            BE2::N(x0) => D::Var(1, vec![x0.to_d()]),
            BE2::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            BE2::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            BE2::E0 {  } => D::Var(4, vec![]),
            BE2::T0() => D::Var(5, vec![]),
            BE2::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => BE2::U,
            1 => BE2::N(Subj::from_d(&v[0])),
            2 => BE2::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => BE2::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => BE2::E0 {  },
            5 => BE2::T0(),
            6 => BE2::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BN3 { pub only: Option<ByteBuf> }
impl Subj for BN3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <Option<ByteBuf> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BN3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BN3 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BN3 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for BN3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BW3(pub Option<ByteBuf>);
impl Subj for BW3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<ByteBuf> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BW3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BW3(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BW3(Subj::from_d(&v[0]))
    }
}
impl Default for BW3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BP3 { pub bb: Option<ByteBuf>, pub a: Vec<u8>, pub cc: u8 }
impl Subj for BP3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<ByteBuf> as Subj>::ty()), fld(t("a"), <Vec<u8> as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BP3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BP3 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BP3 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for BP3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BT3(pub Option<ByteBuf>, pub Vec<u8>);
impl Subj for BT3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<ByteBuf> as Subj>::ty()), fld(NULL, <Vec<u8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BT3".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BT3(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BT3(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for BT3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum BE3 {
    U,
    N(Option<ByteBuf>),
    Tu(Option<ByteBuf>, u8),
    R { bb: Option<ByteBuf>, a: Vec<u8> },
    E0 {  },
    T0(),
    Last,
}
impl Subj for BE3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "BE3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<ByteBuf> as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<ByteBuf> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <Option<ByteBuf> as Subj>::ty()), fld(t("a"), <Vec<u8> as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            BE3::U => D::Var(0, vec![]),
            BE3::N(x0) => D::Var(1, vec![x0.to_d()]),
            BE3::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            BE3::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            BE3::E0 {  } => D::Var(4, vec![]),
            BE3::T0() => D::Var(5, vec![]),
            BE3::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => BE3::U,
            1 => BE3::N(Subj::from_d(&v[0])),
            2 => BE3::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => BE3::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => BE3::E0 {  },
            5 => BE3::T0(),
            6 => BE3::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BN4 { pub only: Vec<Vec<u8>> }
impl Subj for BN4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <Vec<Vec<u8>> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BN4".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BN4 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BN4 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for BN4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BW4(pub Vec<Vec<u8>>);
impl Subj for BW4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<Vec<u8>> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BW4".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BW4(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BW4(Subj::from_d(&v[0]))
    }
}
impl Default for BW4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BP4 { pub bb: Vec<Vec<u8>>, pub a: AN0, pub cc: u8 }
impl Subj for BP4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Vec<Vec<u8>> as Subj>::ty()), fld(t("a"), <AN0 as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BP4".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BP4 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BP4 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for BP4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BT4(pub Vec<Vec<u8>>, pub AN0);
impl Subj for BT4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Vec<Vec<u8>> as Subj>::ty()), fld(NULL, <AN0 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BT4".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BT4(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BT4(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for BT4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum BE4 {
    U,
    N(Vec<Vec<u8>>),
    Tu(Vec<Vec<u8>>, u8),
    R { bb: Vec<Vec<u8>>, a: AN0 },
    E0 {  },
    T0(),
    Last,
}
impl Subj for BE4 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "BE4".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<Vec<u8>> as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Vec<Vec<u8>> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <Vec<Vec<u8>> as Subj>::ty()), fld(t("a"), <AN0 as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            BE4::U => D::Var(0, vec![]),
            BE4::N(x0) => D::Var(1, vec![x0.to_d()]),
            BE4::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            BE4::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            BE4::E0 {  } => D::Var(4, vec![]),
            BE4::T0() => D::Var(5, vec![]),
            BE4::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => BE4::U,
            1 => BE4::N(Subj::from_d(&v[0])),
            2 => BE4::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => BE4::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => BE4::E0 {  },
            5 => BE4::T0(),
            6 => BE4::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BN5 { pub only: BTreeMap<ByteBuf, u8> }
impl Subj for BN5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <BTreeMap<ByteBuf, u8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BN5".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BN5 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BN5 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for BN5 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BW5(pub BTreeMap<ByteBuf, u8>);
impl Subj for BW5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <BTreeMap<ByteBuf, u8> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BW5".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BW5(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BW5(Subj::from_d(&v[0]))
    }
}
impl Default for BW5 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BP5 { pub bb: BTreeMap<ByteBuf, u8>, pub a: [u8; 3], pub cc: u8 }
impl Subj for BP5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <BTreeMap<ByteBuf, u8> as Subj>::ty()), fld(t("a"), <[u8; 3] as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BP5".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BP5 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BP5 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for BP5 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BT5(pub BTreeMap<ByteBuf, u8>, pub [u8; 3]);
impl Subj for BT5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <BTreeMap<ByteBuf, u8> as Subj>::ty()), fld(NULL, <[u8; 3] as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BT5".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BT5(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BT5(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for BT5 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum BE5 {
    U,
    N(BTreeMap<ByteBuf, u8>),
    Tu(BTreeMap<ByteBuf, u8>, u8),
    R { bb: BTreeMap<ByteBuf, u8>, a: [u8; 3] },
    E0 {  },
    T0(),
    Last,
}
impl Subj for BE5 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "BE5".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<ByteBuf, u8> as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<ByteBuf, u8> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <BTreeMap<ByteBuf, u8> as Subj>::ty()), fld(t("a"), <[u8; 3] as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            BE5::U => D::Var(0, vec![]),
            BE5::N(x0) => D::Var(1, vec![x0.to_d()]),
            BE5::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            BE5::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            BE5::E0 {  } => D::Var(4, vec![]),
            BE5::T0() => D::Var(5, vec![]),
            BE5::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => BE5::U,
            1 => BE5::N(Subj::from_d(&v[0])),
            2 => BE5::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => BE5::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => BE5::E0 {  },
            5 => BE5::T0(),
            6 => BE5::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BN6 { pub only: HashSet<u16> }
impl Subj for BN6 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <HashSet<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BN6".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BN6 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BN6 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for BN6 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BW6(pub HashSet<u16>);
impl Subj for BW6 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <HashSet<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BW6".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BW6(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BW6(Subj::from_d(&v[0]))
    }
}
impl Default for BW6 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BP6 { pub bb: HashSet<u16>, pub a: Option<AW3>, pub cc: u8 }
impl Subj for BP6 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <HashSet<u16> as Subj>::ty()), fld(t("a"), <Option<AW3> as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BP6".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BP6 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BP6 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for BP6 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BT6(pub HashSet<u16>, pub Option<AW3>);
impl Subj for BT6 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <HashSet<u16> as Subj>::ty()), fld(NULL, <Option<AW3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BT6".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BT6(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BT6(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for BT6 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum BE6 {
    U,
    N(HashSet<u16>),
    Tu(HashSet<u16>, u8),
    R { bb: HashSet<u16>, a: Option<AW3> },
    E0 {  },
    T0(),
    Last,
}
impl Subj for BE6 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "BE6".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <HashSet<u16> as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <HashSet<u16> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <HashSet<u16> as Subj>::ty()), fld(t("a"), <Option<AW3> as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            BE6::U => D::Var(0, vec![]),
            BE6::N(x0) => D::Var(1, vec![x0.to_d()]),
            BE6::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            BE6::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            BE6::E0 {  } => D::Var(4, vec![]),
            BE6::T0() => D::Var(5, vec![]),
            BE6::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => BE6::U,
            1 => BE6::N(Subj::from_d(&v[0])),
            2 => BE6::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => BE6::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => BE6::E0 {  },
            5 => BE6::T0(),
            6 => BE6::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BN7 { pub only: AN0 }
impl Subj for BN7 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <AN0 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BN7".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BN7 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BN7 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for BN7 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BW7(pub AN0);
impl Subj for BW7 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <AN0 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BW7".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BW7(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BW7(Subj::from_d(&v[0]))
    }
}
impl Default for BW7 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BP7 { pub bb: AN0, pub a: Vec<Vec<u8>>, pub cc: u8 }
impl Subj for BP7 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <AN0 as Subj>::ty()), fld(t("a"), <Vec<Vec<u8>> as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BP7".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BP7 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BP7 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for BP7 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BT7(pub AN0, pub Vec<Vec<u8>>);
impl Subj for BT7 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <AN0 as Subj>::ty()), fld(NULL, <Vec<Vec<u8>> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BT7".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BT7(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BT7(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for BT7 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum BE7 {
    U,
    N(AN0),
    Tu(AN0, u8),
    R { bb: AN0, a: Vec<Vec<u8>> },
    E0 {  },
    T0(),
    Last,
}
impl Subj for BE7 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "BE7".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <AN0 as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <AN0 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <AN0 as Subj>::ty()), fld(t("a"), <Vec<Vec<u8>> as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            BE7::U => D::Var(0, vec![]),
            BE7::N(x0) => D::Var(1, vec![x0.to_d()]),
            BE7::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            BE7::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            BE7::E0 {  } => D::Var(4, vec![]),
            BE7::T0() => D::Var(5, vec![]),
            BE7::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => BE7::U,
            1 => BE7::N(Subj::from_d(&v[0])),
            2 => BE7::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => BE7::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => BE7::E0 {  },
            5 => BE7::T0(),
            6 => BE7::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BN8 { pub only: AE1 }
impl Subj for BN8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <AE1 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BN8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BN8 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BN8 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for BN8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BW8(pub AE1);
impl Subj for BW8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <AE1 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BW8".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BW8(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BW8(Subj::from_d(&v[0]))
    }
}
impl Default for BW8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BP8 { pub bb: AE1, pub a: BTreeMap<String, ByteBuf>, pub cc: u8 }
impl Subj for BP8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <AE1 as Subj>::ty()), fld(t("a"), <BTreeMap<String, ByteBuf> as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BP8".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BP8 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BP8 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for BP8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BT8(pub AE1, pub BTreeMap<String, ByteBuf>);
impl Subj for BT8 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <AE1 as Subj>::ty()), fld(NULL, <BTreeMap<String, ByteBuf> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BT8".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BT8(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BT8(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for BT8 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum BE8 {
    U,
    N(AE1),
    Tu(AE1, u8),
    R { bb: AE1, a: BTreeMap<String, ByteBuf> },
    E0 {  },
    T0(),
    Last,
}
impl Subj for BE8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "BE8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <AE1 as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <AE1 as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <AE1 as Subj>::ty()), fld(t("a"), <BTreeMap<String, ByteBuf> as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            BE8::U => D::Var(0, vec![]),
            BE8::N(x0) => D::Var(1, vec![x0.to_d()]),
            BE8::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            BE8::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            BE8::E0 {  } => D::Var(4, vec![]),
            BE8::T0() => D::Var(5, vec![]),
            BE8::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => BE8::U,
            1 => BE8::N(Subj::from_d(&v[0])),
            2 => BE8::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => BE8::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => BE8::E0 {  },
            5 => BE8::T0(),
            6 => BE8::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BN9 { pub only: Option<AW3> }
impl Subj for BN9 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <Option<AW3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BN9".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BN9 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BN9 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for BN9 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BW9(pub Option<AW3>);
impl Subj for BW9 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<AW3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BW9".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BW9(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BW9(Subj::from_d(&v[0]))
    }
}
impl Default for BW9 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BP9 { pub bb: Option<AW3>, pub a: HashSet<u16>, pub cc: u8 }
impl Subj for BP9 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <Option<AW3> as Subj>::ty()), fld(t("a"), <HashSet<u16> as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BP9".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BP9 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BP9 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for BP9 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BT9(pub Option<AW3>, pub HashSet<u16>);
impl Subj for BT9 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <Option<AW3> as Subj>::ty()), fld(NULL, <HashSet<u16> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BT9".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BT9(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BT9(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for BT9 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum BE9 {
    U,
    N(Option<AW3>),
    Tu(Option<AW3>, u8),
    R { bb: Option<AW3>, a: HashSet<u16> },
    E0 {  },
    T0(),
    Last,
}
impl Subj for BE9 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "BE9".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<AW3> as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <Option<AW3> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <Option<AW3> as Subj>::ty()), fld(t("a"), <HashSet<u16> as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            BE9::U => D::Var(0, vec![]),
            BE9::N(x0) => D::Var(1, vec![x0.to_d()]),
            BE9::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            BE9::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            BE9::E0 {  } => D::Var(4, vec![]),
            BE9::T0() => D::Var(5, vec![]),
            BE9::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => BE9::U,
            1 => BE9::N(Subj::from_d(&v[0])),
            2 => BE9::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => BE9::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => BE9::E0 {  },
            5 => BE9::T0(),
            6 => BE9::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BN10 { pub only: (ByteBuf, Vec<u8>) }
impl Subj for BN10 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <(ByteBuf, Vec<u8>) as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BN10".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BN10 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BN10 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for BN10 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BW10(pub (ByteBuf, Vec<u8>));
impl Subj for BW10 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(ByteBuf, Vec<u8>) as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BW10".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BW10(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BW10(Subj::from_d(&v[0]))
    }
}
impl Default for BW10 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BP10 { pub bb: (ByteBuf, Vec<u8>), pub a: ByteBuf, pub cc: u8 }
impl Subj for BP10 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <(ByteBuf, Vec<u8>) as Subj>::ty()), fld(t("a"), <ByteBuf as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BP10".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BP10 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BP10 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for BP10 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BT10(pub (ByteBuf, Vec<u8>), pub ByteBuf);
impl Subj for BT10 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <(ByteBuf, Vec<u8>) as Subj>::ty()), fld(NULL, <ByteBuf as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BT10".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BT10(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BT10(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for BT10 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum BE10 {
    U,
    N((ByteBuf, Vec<u8>)),
    Tu((ByteBuf, Vec<u8>), u8),
    R { bb: (ByteBuf, Vec<u8>), a: ByteBuf },
    E0 {  },
    T0(),
    Last,
}
impl Subj for BE10 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "BE10".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <(ByteBuf, Vec<u8>) as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <(ByteBuf, Vec<u8>) as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <(ByteBuf, Vec<u8>) as Subj>::ty()), fld(t("a"), <ByteBuf as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            BE10::U => D::Var(0, vec![]),
            BE10::N(x0) => D::Var(1, vec![x0.to_d()]),
            BE10::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            BE10::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            BE10::E0 {  } => D::Var(4, vec![]),
            BE10::T0() => D::Var(5, vec![]),
            BE10::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => BE10::U,
            1 => BE10::N(Subj::from_d(&v[0])),
            2 => BE10::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => BE10::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => BE10::E0 {  },
            5 => BE10::T0(),
            6 => BE10::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BN11 { pub only: BTreeMap<String, ByteBuf> }
impl Subj for BN11 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("only"), <BTreeMap<String, ByteBuf> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BN11".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BN11 { only: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BN11 { only: Subj::from_d(&v[0]) }
    }
}
impl Default for BN11 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BW11(pub BTreeMap<String, ByteBuf>);
impl Subj for BW11 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <BTreeMap<String, ByteBuf> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BW11".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BW11(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BW11(Subj::from_d(&v[0]))
    }
}
impl Default for BW11 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BP11 { pub bb: BTreeMap<String, ByteBuf>, pub a: AE1, pub cc: u8 }
impl Subj for BP11 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("bb"), <BTreeMap<String, ByteBuf> as Subj>::ty()), fld(t("a"), <AE1 as Subj>::ty()), fld(t("cc"), <u8 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BP11".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BP11 { bb: x0, a: x1, cc: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BP11 { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), cc: Subj::from_d(&v[2]) }
    }
}
impl Default for BP11 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BT11(pub BTreeMap<String, ByteBuf>, pub AE1);
impl Subj for BT11 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <BTreeMap<String, ByteBuf> as Subj>::ty()), fld(NULL, <AE1 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "BT11".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let BT11(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        BT11(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for BT11 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum BE11 {
    U,
    N(BTreeMap<String, ByteBuf>),
    Tu(BTreeMap<String, ByteBuf>, u8),
    R { bb: BTreeMap<String, ByteBuf>, a: AE1 },
    E0 {  },
    T0(),
    Last,
}
impl Subj for BE11 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "BE11".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("U"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("N"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, ByteBuf> as Subj>::ty())] },
            VariantTy { key: t("Tu"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <BTreeMap<String, ByteBuf> as Subj>::ty()), fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("R"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("bb"), <BTreeMap<String, ByteBuf> as Subj>::ty()), fld(t("a"), <AE1 as Subj>::ty())] },
            VariantTy { key: t("E0"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("T0"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Last"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            BE11::U => D::Var(0, vec![]),
            BE11::N(x0) => D::Var(1, vec![x0.to_d()]),
            BE11::Tu(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            BE11::R { bb: x0, a: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
            BE11::E0 {  } => D::Var(4, vec![]),
            BE11::T0() => D::Var(5, vec![]),
            BE11::Last => D::Var(6, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => BE11::U,
            1 => BE11::N(Subj::from_d(&v[0])),
            2 => BE11::Tu(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => BE11::R { bb: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) },
            4 => BE11::E0 {  },
            5 => BE11::T0(),
            6 => BE11::Last,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Attr1 { #[serde(skip_serializing_if = "Option::is_none")] pub b: Option<u8>, #[serde(default)] pub a: u64, #[serde(default, skip_serializing_if = "Vec::is_empty")] pub v: Vec<String> }
impl Subj for Attr1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("b"), <Option<u8> as Subj>::ty()).skip_when(|d| *d == D::None), fld(t("a"), <u64 as Subj>::ty()).opt(), fld(t("v"), <Vec<String> as Subj>::ty()).opt().skip_when(|d| d.seq().is_empty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Attr1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Attr1 { b: x0, a: x1, v: x2 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Attr1 { b: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]), v: Subj::from_d(&v[2]) }
    }
}
impl Default for Attr1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Attr2 { #[serde(rename = "y")] pub x: u8, #[serde(rename = "x")] pub y: String, #[serde(rename = "")] pub e: i16, #[serde(skip)] pub skipped: u32, #[serde(rename = "\u{e9}")] pub u: i64 }
impl Subj for Attr2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("y"), <u8 as Subj>::ty()), fld(t("x"), <String as Subj>::ty()), fld(t(""), <i16 as Subj>::ty()), fld(t("skipped"), <u32 as Subj>::ty()).skipped(), fld(t("é"), <i64 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Attr2".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Attr2 { x: x0, y: x1, e: x2, skipped: x3, u: x4 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Attr2 { x: Subj::from_d(&v[0]), y: Subj::from_d(&v[1]), e: Subj::from_d(&v[2]), skipped: Subj::from_d(&v[3]), u: Subj::from_d(&v[4]) }
    }
}
impl Default for Attr2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Attr3 { pub some_name: u8, pub the_other: Option<char> }
impl Subj for Attr3 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("someName"), <u8 as Subj>::ty()), fld(t("theOther"), <Option<char> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Attr3".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Attr3 { some_name: x0, the_other: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Attr3 { some_name: Subj::from_d(&v[0]), the_other: Subj::from_d(&v[1]) }
    }
}
impl Default for Attr3 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(transparent)]
pub struct Attr4 { pub inner: AP5 }
impl Subj for Attr4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("inner"), <AP5 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Attr4".into(), shape: Shape::Named, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Attr4 { inner: x0 } = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Attr4 { inner: Subj::from_d(&v[0]) }
    }
}
impl Default for Attr4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(transparent)]
pub struct Attr5(pub AE13);
impl Subj for Attr5 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <AE13 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Attr5".into(), shape: Shape::Tuple, transparent: true, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Attr5(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Attr5(Subj::from_d(&v[0]))
    }
}
impl Default for Attr5 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "kebab-case")]
pub enum Attr6 {
    OneThing,
    #[serde(rename = "1")] Other(u8),
    Rec { #[serde(skip)] skipped: u8, #[serde(rename = "k")] kept: String },
}
impl Subj for Attr6 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "Attr6".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("one-thing"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("1"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("rec"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("skipped"), <u8 as Subj>::ty()).skipped(), fld(t("k"), <String as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            Attr6::OneThing => D::Var(0, vec![]),
            Attr6::Other(x0) => D::Var(1, vec![x0.to_d()]),
            Attr6::Rec { skipped: x0, kept: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => Attr6::OneThing,
            1 => Attr6::Other(Subj::from_d(&v[0])),
            2 => Attr6::Rec { skipped: Subj::from_d(&v[0]), kept: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct Many { pub f0: u8, pub f1: String, pub f2: Option<i8>, pub f3: bool, pub f4: u8, pub f5: String, pub f6: Option<i8>, pub f7: bool, pub f8: u8, pub f9: String, pub f10: Option<i8>, pub f11: bool, pub f12: u8, pub f13: String, pub f14: Option<i8>, pub f15: bool, pub f16: u8, pub f17: String, pub f18: Option<i8>, pub f19: bool, pub f20: u8, pub f21: String, pub f22: Option<i8>, pub f23: bool, pub f24: u8, pub f25: String, pub f26: Option<i8>, pub f27: bool, pub f28: u8, pub f29: String }
impl Subj for Many {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("f0"), <u8 as Subj>::ty()), fld(t("f1"), <String as Subj>::ty()), fld(t("f2"), <Option<i8> as Subj>::ty()), fld(t("f3"), <bool as Subj>::ty()), fld(t("f4"), <u8 as Subj>::ty()), fld(t("f5"), <String as Subj>::ty()), fld(t("f6"), <Option<i8> as Subj>::ty()), fld(t("f7"), <bool as Subj>::ty()), fld(t("f8"), <u8 as Subj>::ty()), fld(t("f9"), <String as Subj>::ty()), fld(t("f10"), <Option<i8> as Subj>::ty()), fld(t("f11"), <bool as Subj>::ty()), fld(t("f12"), <u8 as Subj>::ty()), fld(t("f13"), <String as Subj>::ty()), fld(t("f14"), <Option<i8> as Subj>::ty()), fld(t("f15"), <bool as Subj>::ty()), fld(t("f16"), <u8 as Subj>::ty()), fld(t("f17"), <String as Subj>::ty()), fld(t("f18"), <Option<i8> as Subj>::ty()), fld(t("f19"), <bool as Subj>::ty()), fld(t("f20"), <u8 as Subj>::ty()), fld(t("f21"), <String as Subj>::ty()), fld(t("f22"), <Option<i8> as Subj>::ty()), fld(t("f23"), <bool as Subj>::ty()), fld(t("f24"), <u8 as Subj>::ty()), fld(t("f25"), <String as Subj>::ty()), fld(t("f26"), <Option<i8> as Subj>::ty()), fld(t("f27"), <bool as Subj>::ty()), fld(t("f28"), <u8 as Subj>::ty()), fld(t("f29"), <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "Many".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let Many { f0: x0, f1: x1, f2: x2, f3: x3, f4: x4, f5: x5, f6: x6, f7: x7, f8: x8, f9: x9, f10: x10, f11: x11, f12: x12, f13: x13, f14: x14, f15: x15, f16: x16, f17: x17, f18: x18, f19: x19, f20: x20, f21: x21, f22: x22, f23: x23, f24: x24, f25: x25, f26: x26, f27: x27, f28: x28, f29: x29 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d(), x5.to_d(), x6.to_d(), x7.to_d(), x8.to_d(), x9.to_d(), x10.to_d(), x11.to_d(), x12.to_d(), x13.to_d(), x14.to_d(), x15.to_d(), x16.to_d(), x17.to_d(), x18.to_d(), x19.to_d(), x20.to_d(), x21.to_d(), x22.to_d(), x23.to_d(), x24.to_d(), x25.to_d(), x26.to_d(), x27.to_d(), x28.to_d(), x29.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        Many { f0: Subj::from_d(&v[0]), f1: Subj::from_d(&v[1]), f2: Subj::from_d(&v[2]), f3: Subj::from_d(&v[3]), f4: Subj::from_d(&v[4]), f5: Subj::from_d(&v[5]), f6: Subj::from_d(&v[6]), f7: Subj::from_d(&v[7]), f8: Subj::from_d(&v[8]), f9: Subj::from_d(&v[9]), f10: Subj::from_d(&v[10]), f11: Subj::from_d(&v[11]), f12: Subj::from_d(&v[12]), f13: Subj::from_d(&v[13]), f14: Subj::from_d(&v[14]), f15: Subj::from_d(&v[15]), f16: Subj::from_d(&v[16]), f17: Subj::from_d(&v[17]), f18: Subj::from_d(&v[18]), f19: Subj::from_d(&v[19]), f20: Subj::from_d(&v[20]), f21: Subj::from_d(&v[21]), f22: Subj::from_d(&v[22]), f23: Subj::from_d(&v[23]), f24: Subj::from_d(&v[24]), f25: Subj::from_d(&v[25]), f26: Subj::from_d(&v[26]), f27: Subj::from_d(&v[27]), f28: Subj::from_d(&v[28]), f29: Subj::from_d(&v[29]) }
    }
}
impl Default for Many {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct ManyT(pub u8, pub String, pub Option<i8>, pub bool, pub u8, pub String, pub Option<i8>, pub bool, pub u8, pub String, pub Option<i8>, pub bool, pub u8, pub String, pub Option<i8>, pub bool, pub u8, pub String, pub Option<i8>, pub bool, pub u8, pub String, pub Option<i8>, pub bool, pub u8, pub String);
impl Subj for ManyT {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty()), fld(NULL, <Option<i8> as Subj>::ty()), fld(NULL, <bool as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty()), fld(NULL, <Option<i8> as Subj>::ty()), fld(NULL, <bool as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty()), fld(NULL, <Option<i8> as Subj>::ty()), fld(NULL, <bool as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty()), fld(NULL, <Option<i8> as Subj>::ty()), fld(NULL, <bool as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty()), fld(NULL, <Option<i8> as Subj>::ty()), fld(NULL, <bool as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty()), fld(NULL, <Option<i8> as Subj>::ty()), fld(NULL, <bool as Subj>::ty()), fld(NULL, <u8 as Subj>::ty()), fld(NULL, <String as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "ManyT".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let ManyT(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19, x20, x21, x22, x23, x24, x25) = self;
        D::Seq(vec![x0.to_d(), x1.to_d(), x2.to_d(), x3.to_d(), x4.to_d(), x5.to_d(), x6.to_d(), x7.to_d(), x8.to_d(), x9.to_d(), x10.to_d(), x11.to_d(), x12.to_d(), x13.to_d(), x14.to_d(), x15.to_d(), x16.to_d(), x17.to_d(), x18.to_d(), x19.to_d(), x20.to_d(), x21.to_d(), x22.to_d(), x23.to_d(), x24.to_d(), x25.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        ManyT(Subj::from_d(&v[0]), Subj::from_d(&v[1]), Subj::from_d(&v[2]), Subj::from_d(&v[3]), Subj::from_d(&v[4]), Subj::from_d(&v[5]), Subj::from_d(&v[6]), Subj::from_d(&v[7]), Subj::from_d(&v[8]), Subj::from_d(&v[9]), Subj::from_d(&v[10]), Subj::from_d(&v[11]), Subj::from_d(&v[12]), Subj::from_d(&v[13]), Subj::from_d(&v[14]), Subj::from_d(&v[15]), Subj::from_d(&v[16]), Subj::from_d(&v[17]), Subj::from_d(&v[18]), Subj::from_d(&v[19]), Subj::from_d(&v[20]), Subj::from_d(&v[21]), Subj::from_d(&v[22]), Subj::from_d(&v[23]), Subj::from_d(&v[24]), Subj::from_d(&v[25]))
    }
}
impl Default for ManyT {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum ManyV {
    V0,
    V1(i64, u8),
    V2 { q: i64 },
    V3,
    V4(i64),
    V5 { q: i64, r: u8 },
    V6,
    V7(i64, u8),
    V8 { q: i64 },
    V9,
    V10(i64),
    V11 { q: i64, r: u8 },
    V12,
    V13(i64, u8),
    V14 { q: i64 },
    V15,
    V16(i64),
    V17 { q: i64, r: u8 },
    V18,
    V19(i64, u8),
    V20 { q: i64 },
    V21,
    V22(i64),
    V23 { q: i64, r: u8 },
    V24,
    V25(i64, u8),
    V26 { q: i64 },
    V27,
    V28(i64),
    V29 { q: i64, r: u8 },
    V30,
    V31(i64, u8),
    V32 { q: i64 },
    V33,
    V34(i64),
    V35 { q: i64, r: u8 },
    V36,
    V37(i64, u8),
    V38 { q: i64 },
    V39,
}
impl Subj for ManyV {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "ManyV".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("V0"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V1"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty()), fld(t("r"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V2"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty())] },
            VariantTy { key: t("V3"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V4"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty())] },
            VariantTy { key: t("V5"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty()), fld(t("r"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V6"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V7"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty()), fld(t("r"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V8"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty())] },
            VariantTy { key: t("V9"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V10"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty())] },
            VariantTy { key: t("V11"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty()), fld(t("r"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V12"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V13"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty()), fld(t("r"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V14"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty())] },
            VariantTy { key: t("V15"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V16"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty())] },
            VariantTy { key: t("V17"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty()), fld(t("r"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V18"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V19"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty()), fld(t("r"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V20"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty())] },
            VariantTy { key: t("V21"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V22"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty())] },
            VariantTy { key: t("V23"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty()), fld(t("r"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V24"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V25"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty()), fld(t("r"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V26"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty())] },
            VariantTy { key: t("V27"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V28"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty())] },
            VariantTy { key: t("V29"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty()), fld(t("r"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V30"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V31"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty()), fld(t("r"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V32"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty())] },
            VariantTy { key: t("V33"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V34"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty())] },
            VariantTy { key: t("V35"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty()), fld(t("r"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V36"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("V37"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty()), fld(t("r"), <u8 as Subj>::ty())] },
            VariantTy { key: t("V38"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("q"), <i64 as Subj>::ty())] },
            VariantTy { key: t("V39"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            ManyV::V0 => D::Var(0, vec![]),
            ManyV::V1(x0, x1) => D::Var(1, vec![x0.to_d(), x1.to_d()]),
            ManyV::V2 { q: x0 } => D::Var(2, vec![x0.to_d()]),
            ManyV::V3 => D::Var(3, vec![]),
            ManyV::V4(x0) => D::Var(4, vec![x0.to_d()]),
            ManyV::V5 { q: x0, r: x1 } => D::Var(5, vec![x0.to_d(), x1.to_d()]),
            ManyV::V6 => D::Var(6, vec![]),
            ManyV::V7(x0, x1) => D::Var(7, vec![x0.to_d(), x1.to_d()]),
            ManyV::V8 { q: x0 } => D::Var(8, vec![x0.to_d()]),
            ManyV::V9 => D::Var(9, vec![]),
            ManyV::V10(x0) => D::Var(10, vec![x0.to_d()]),
            ManyV::V11 { q: x0, r: x1 } => D::Var(11, vec![x0.to_d(), x1.to_d()]),
            ManyV::V12 => D::Var(12, vec![]),
            ManyV::V13(x0, x1) => D::Var(13, vec![x0.to_d(), x1.to_d()]),
            ManyV::V14 { q: x0 } => D::Var(14, vec![x0.to_d()]),
            ManyV::V15 => D::Var(15, vec![]),
            ManyV::V16(x0) => D::Var(16, vec![x0.to_d()]),
            ManyV::V17 { q: x0, r: x1 } => D::Var(17, vec![x0.to_d(), x1.to_d()]),
            ManyV::V18 => D::Var(18, vec![]),
            ManyV::V19(x0, x1) => D::Var(19, vec![x0.to_d(), x1.to_d()]),
            ManyV::V20 { q: x0 } => D::Var(20, vec![x0.to_d()]),
            ManyV::V21 => D::Var(21, vec![]),
            ManyV::V22(x0) => D::Var(22, vec![x0.to_d()]),
            ManyV::V23 { q: x0, r: x1 } => D::Var(23, vec![x0.to_d(), x1.to_d()]),
            ManyV::V24 => D::Var(24, vec![]),
            ManyV::V25(x0, x1) => D::Var(25, vec![x0.to_d(), x1.to_d()]),
            ManyV::V26 { q: x0 } => D::Var(26, vec![x0.to_d()]),
            ManyV::V27 => D::Var(27, vec![]),
            ManyV::V28(x0) => D::Var(28, vec![x0.to_d()]),
            ManyV::V29 { q: x0, r: x1 } => D::Var(29, vec![x0.to_d(), x1.to_d()]),
            ManyV::V30 => D::Var(30, vec![]),
            ManyV::V31(x0, x1) => D::Var(31, vec![x0.to_d(), x1.to_d()]),
            ManyV::V32 { q: x0 } => D::Var(32, vec![x0.to_d()]),
            ManyV::V33 => D::Var(33, vec![]),
            ManyV::V34(x0) => D::Var(34, vec![x0.to_d()]),
            ManyV::V35 { q: x0, r: x1 } => D::Var(35, vec![x0.to_d(), x1.to_d()]),
            ManyV::V36 => D::Var(36, vec![]),
            ManyV::V37(x0, x1) => D::Var(37, vec![x0.to_d(), x1.to_d()]),
            ManyV::V38 { q: x0 } => D::Var(38, vec![x0.to_d()]),
            ManyV::V39 => D::Var(39, vec![]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => ManyV::V0,
            1 => ManyV::V1(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            2 => ManyV::V2 { q: Subj::from_d(&v[0]) },
            3 => ManyV::V3,
            4 => ManyV::V4(Subj::from_d(&v[0])),
            5 => ManyV::V5 { q: Subj::from_d(&v[0]), r: Subj::from_d(&v[1]) },
            6 => ManyV::V6,
            7 => ManyV::V7(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            8 => ManyV::V8 { q: Subj::from_d(&v[0]) },
            9 => ManyV::V9,
            10 => ManyV::V10(Subj::from_d(&v[0])),
            11 => ManyV::V11 { q: Subj::from_d(&v[0]), r: Subj::from_d(&v[1]) },
            12 => ManyV::V12,
            13 => ManyV::V13(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            14 => ManyV::V14 { q: Subj::from_d(&v[0]) },
            15 => ManyV::V15,
            16 => ManyV::V16(Subj::from_d(&v[0])),
            17 => ManyV::V17 { q: Subj::from_d(&v[0]), r: Subj::from_d(&v[1]) },
            18 => ManyV::V18,
            19 => ManyV::V19(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            20 => ManyV::V20 { q: Subj::from_d(&v[0]) },
            21 => ManyV::V21,
            22 => ManyV::V22(Subj::from_d(&v[0])),
            23 => ManyV::V23 { q: Subj::from_d(&v[0]), r: Subj::from_d(&v[1]) },
            24 => ManyV::V24,
            25 => ManyV::V25(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            26 => ManyV::V26 { q: Subj::from_d(&v[0]) },
            27 => ManyV::V27,
            28 => ManyV::V28(Subj::from_d(&v[0])),
            29 => ManyV::V29 { q: Subj::from_d(&v[0]), r: Subj::from_d(&v[1]) },
            30 => ManyV::V30,
            31 => ManyV::V31(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            32 => ManyV::V32 { q: Subj::from_d(&v[0]) },
            33 => ManyV::V33,
            34 => ManyV::V34(Subj::from_d(&v[0])),
            35 => ManyV::V35 { q: Subj::from_d(&v[0]), r: Subj::from_d(&v[1]) },
            36 => ManyV::V36,
            37 => ManyV::V37(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            38 => ManyV::V38 { q: Subj::from_d(&v[0]) },
            39 => ManyV::V39,
            _ => panic!("{d:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct R1 { pub b: u8, pub a: Vec<R1> }
impl Subj for R1 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("b"), <u8 as Subj>::ty()), fld(t("a"), Ty::Seq(Arc::new(Ty::Rec(R1::ty))))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "R1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let R1 { b: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        R1 { b: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl Default for R1 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct R2(pub BTreeMap<String, R2>, pub Option<bool>);
impl Subj for R2 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), Ty::Map(Arc::new(String::ty()), Arc::new(Ty::Rec(R2::ty)))), fld(NULL, <Option<bool> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "R2".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let R2(x0, x1) = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        R2(Subj::from_d(&v[0]), Subj::from_d(&v[1]))
    }
}
impl Default for R2 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum R3 {
    Nil,
    Leaf(u8),
    Kids(Vec<R3>),
    Both { k: Vec<R3>, m: BTreeMap<String, R3> },
}
impl Subj for R3 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "R3".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Nil"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Leaf"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <u8 as Subj>::ty())] },
            VariantTy { key: t("Kids"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), Ty::Seq(Arc::new(Ty::Rec(R3::ty))))] },
            VariantTy { key: t("Both"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("k"), Ty::Seq(Arc::new(Ty::Rec(R3::ty)))), fld(t("m"), Ty::Map(Arc::new(String::ty()), Arc::new(Ty::Rec(R3::ty))))] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            R3::Nil => D::Var(0, vec![]),
            R3::Leaf(x0) => D::Var(1, vec![x0.to_d()]),
            R3::Kids(x0) => D::Var(2, vec![x0.to_d()]),
            R3::Both { k: x0, m: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => R3::Nil,
            1 => R3::Leaf(Subj::from_d(&v[0])),
            2 => R3::Kids(Subj::from_d(&v[0])),
            3 => R3::Both { k: Subj::from_d(&v[0]), m: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for R3 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct R4 { pub next: Option<Box<R4>>, pub v: i16 }
impl Subj for R4 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("next"), Ty::Opt(Arc::new(Ty::Rec(R4::ty)))), fld(t("v"), <i16 as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "R4".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let R4 { next: x0, v: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        R4 { next: Subj::from_d(&v[0]), v: Subj::from_d(&v[1]) }
    }
}
impl Default for R4 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum R5 {
    Nil,
    Not(Box<R5>),
    And(Box<R5>, Box<R5>),
    If { cond: Box<R5>, els: Option<Box<R5>> },
}
impl Subj for R5 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "R5".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Nil"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Not"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), Ty::Rec(R5::ty))] },
            VariantTy { key: t("And"), discr: None, shape: Shape::Tuple, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), Ty::Rec(R5::ty)), fld(t("a"), Ty::Rec(R5::ty))] },
            VariantTy { key: t("If"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("cond"), Ty::Rec(R5::ty)), fld(t("els"), Ty::Opt(Arc::new(Ty::Rec(R5::ty))))] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            R5::Nil => D::Var(0, vec![]),
            R5::Not(x0) => D::Var(1, vec![x0.to_d()]),
            R5::And(x0, x1) => D::Var(2, vec![x0.to_d(), x1.to_d()]),
            R5::If { cond: x0, els: x1 } => D::Var(3, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => R5::Nil,
            1 => R5::Not(Subj::from_d(&v[0])),
            2 => R5::And(Subj::from_d(&v[0]), Subj::from_d(&v[1])),
            3 => R5::If { cond: Subj::from_d(&v[0]), els: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for R5 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct R6(pub Vec<R6>);
impl Subj for R6 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), Ty::Seq(Arc::new(Ty::Rec(R6::ty))))];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "R6".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let R6(x0) = self;
        D::Seq(vec![x0.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        R6(Subj::from_d(&v[0]))
    }
}
impl Default for R6 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct R7 { pub a: Vec<R8>, pub m: BTreeMap<u8, R3> }
impl Subj for R7 {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("a"), Ty::Seq(Arc::new(Ty::Rec(R8::ty)))), fld(t("m"), <BTreeMap<u8, R3> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "R7".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let R7 { a: x0, m: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        R7 { a: Subj::from_d(&v[0]), m: Subj::from_d(&v[1]) }
    }
}
impl Default for R7 {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum R8 {
    Stop,
    Back(Box<R7>),
}
impl Subj for R8 {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "R8".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Stop"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("Back"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("a"), Ty::Rec(R7::ty))] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            R8::Stop => D::Var(0, vec![]),
            R8::Back(x0) => D::Var(1, vec![x0.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => R8::Stop,
            1 => R8::Back(Subj::from_d(&v[0])),
            _ => panic!("{d:?}"),
        }
    }
}
impl Default for R8 {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct G1<T> where T: Subj + Encode + Decode + Default { pub b: T, pub a: Vec<T> }
impl<T> Subj for G1<T> where T: Subj + Encode + Decode + Default {
    fn ty() -> Ty {
        let fields: Vec<FieldTy> = vec![fld(t("b"), <T as Subj>::ty()), fld(t("a"), <Vec<T> as Subj>::ty())];
        let default = dfields(&fields);
        Ty::Struct(Arc::new(StructTy { name: "G1".into(), shape: Shape::Named, transparent: false, as_array: false, allow_unknown: false, fields, default }))
    }
    fn to_d(&self) -> D {
        let G1 { b: x0, a: x1 } = self;
        D::Seq(vec![x0.to_d(), x1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        let v = d.seq();
        let _ = v;
        G1 { b: Subj::from_d(&v[0]), a: Subj::from_d(&v[1]) }
    }
}
impl<T> Default for G1<T> where T: Subj + Encode + Decode + Default {
    fn default() -> Self {
        Self::from_d(&std_default(&Self::ty()))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum G2<T> where T: Subj + Encode + Decode + Default {
    Nil,
    One(T),
    Two { t: T, o: Option<T> },
}
impl<T> Subj for G2<T> where T: Subj + Encode + Decode + Default {
    fn ty() -> Ty {
        Ty::Enum(Arc::new(EnumTy { name: "G2".into(), tag: None, untagged: false, default: None, overlap: false, variants: vec![
            VariantTy { key: t("Nil"), discr: None, shape: Shape::Unit, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![] },
            VariantTy { key: t("One"), discr: None, shape: Shape::Tuple, newtype: true, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(NULL, <T as Subj>::ty())] },
            VariantTy { key: t("Two"), discr: None, shape: Shape::Named, newtype: false, as_array: false, as_struct: false, skip: false, embed: false, allow_unknown: false, missing: false, fields: vec![fld(t("t"), <T as Subj>::ty()), fld(t("o"), <Option<T> as Subj>::ty())] }
        ] }))
    }
    fn to_d(&self) -> D {
        match self {
            G2::Nil => D::Var(0, vec![]),
            G2::One(x0) => D::Var(1, vec![x0.to_d()]),
            G2::Two { t: x0, o: x1 } => D::Var(2, vec![x0.to_d(), x1.to_d()]),
        }
    }
    fn from_d(d: &D) -> Self {
        let D::Var(i, v) = d else { panic!("{d:?}") };
        let _ = v;
        match i {
            0 => G2::Nil,
            1 => G2::One(Subj::from_d(&v[0])),
            2 => G2::Two { t: Subj::from_d(&v[0]), o: Subj::from_d(&v[1]) },
            _ => panic!("{d:?}"),
        }
    }
}
impl<T> Default for G2<T> where T: Subj + Encode + Decode + Default {
    fn default() -> Self {
        Self::from_d(&D::Var(0, vec![]))
    }
}

pub fn shared(v: &mut Vec<SOps>) {
    v.push(sops::<SN>("SN").native(ops::<SN>("SN")));
    v.push(sops::<EN>("EN").native(ops::<EN>("EN")));
    v.push(sops::<Unit0>("Unit0").native(ops::<Unit0>("Unit0")));
    v.push(sops::<None0>("None0").native(ops::<None0>("None0")));
    v.push(sops::<Tup0>("Tup0").native(ops::<Tup0>("Tup0")));
    v.push(sops::<AN0>("AN0").native(ops::<AN0>("AN0")));
    v.push(sops::<AW0>("AW0").native(ops::<AW0>("AW0")));
    v.push(sops::<AP0>("AP0").native(ops::<AP0>("AP0")));
    v.push(sops::<AT0>("AT0").native(ops::<AT0>("AT0")));
    v.push(sops::<AE0>("AE0").native(ops::<AE0>("AE0")));
    v.push(sops::<AN1>("AN1").native(ops::<AN1>("AN1")));
    v.push(sops::<AW1>("AW1").native(ops::<AW1>("AW1")));
    v.push(sops::<AP1>("AP1").native(ops::<AP1>("AP1")));
    v.push(sops::<AT1>("AT1").native(ops::<AT1>("AT1")));
    v.push(sops::<AE1>("AE1").native(ops::<AE1>("AE1")));
    v.push(sops::<AN2>("AN2").native(ops::<AN2>("AN2")));
    v.push(sops::<AW2>("AW2").native(ops::<AW2>("AW2")));
    v.push(sops::<AP2>("AP2").native(ops::<AP2>("AP2")));
    v.push(sops::<AT2>("AT2").native(ops::<AT2>("AT2")));
    v.push(sops::<AE2>("AE2").native(ops::<AE2>("AE2")));
    v.push(sops::<AN3>("AN3").native(ops::<AN3>("AN3")));
    v.push(sops::<AW3>("AW3").native(ops::<AW3>("AW3")));
    v.push(sops::<AP3>("AP3").native(ops::<AP3>("AP3")));
    v.push(sops::<AT3>("AT3").native(ops::<AT3>("AT3")));
    v.push(sops::<AE3>("AE3").native(ops::<AE3>("AE3")));
    v.push(sops::<AN4>("AN4").native(ops::<AN4>("AN4")));
    v.push(sops::<AW4>("AW4").native(ops::<AW4>("AW4")));
    v.push(sops::<AP4>("AP4").native(ops::<AP4>("AP4")));
    v.push(sops::<AT4>("AT4").native(ops::<AT4>("AT4")));
    v.push(sops::<AE4>("AE4").native(ops::<AE4>("AE4")));
    v.push(sops::<AN5>("AN5").native(ops::<AN5>("AN5")));
    v.push(sops::<AW5>("AW5").native(ops::<AW5>("AW5")));
    v.push(sops::<AP5>("AP5").native(ops::<AP5>("AP5")));
    v.push(sops::<AT5>("AT5").native(ops::<AT5>("AT5")));
    v.push(sops::<AE5>("AE5").native(ops::<AE5>("AE5")));
    v.push(sops::<AN6>("AN6").native(ops::<AN6>("AN6")));
    v.push(sops::<AW6>("AW6").native(ops::<AW6>("AW6")));
    v.push(sops::<AP6>("AP6").native(ops::<AP6>("AP6")));
    v.push(sops::<AT6>("AT6").native(ops::<AT6>("AT6")));
    v.push(sops::<AE6>("AE6").native(ops::<AE6>("AE6")));
    v.push(sops::<AN7>("AN7").native(ops::<AN7>("AN7")));
    v.push(sops::<AW7>("AW7").native(ops::<AW7>("AW7")));
    v.push(sops::<AP7>("AP7").native(ops::<AP7>("AP7")));
    v.push(sops::<AT7>("AT7").native(ops::<AT7>("AT7")));
    v.push(sops::<AE7>("AE7").native(ops::<AE7>("AE7")));
    v.push(sops::<AN8>("AN8").native(ops::<AN8>("AN8")));
    v.push(sops::<AW8>("AW8").native(ops::<AW8>("AW8")));
    v.push(sops::<AP8>("AP8").native(ops::<AP8>("AP8")));
    v.push(sops::<AT8>("AT8").native(ops::<AT8>("AT8")));
    v.push(sops::<AE8>("AE8").native(ops::<AE8>("AE8")));
    v.push(sops::<AN9>("AN9").native(ops::<AN9>("AN9")));
    v.push(sops::<AW9>("AW9").native(ops::<AW9>("AW9")));
    v.push(sops::<AP9>("AP9").native(ops::<AP9>("AP9")));
    v.push(sops::<AT9>("AT9").native(ops::<AT9>("AT9")));
    v.push(sops::<AE9>("AE9").native(ops::<AE9>("AE9")));
    v.push(sops::<AN10>("AN10").native(ops::<AN10>("AN10")));
    v.push(sops::<AW10>("AW10").native(ops::<AW10>("AW10")));
    v.push(sops::<AP10>("AP10").native(ops::<AP10>("AP10")));
    v.push(sops::<AT10>("AT10").native(ops::<AT10>("AT10")));
    v.push(sops::<AE10>("AE10").native(ops::<AE10>("AE10")));
    v.push(sops::<AN11>("AN11").native(ops::<AN11>("AN11")));
    v.push(sops::<AW11>("AW11").native(ops::<AW11>("AW11")));
    v.push(sops::<AP11>("AP11").native(ops::<AP11>("AP11")));
    v.push(sops::<AT11>("AT11").native(ops::<AT11>("AT11")));
    v.push(sops::<AE11>("AE11").native(ops::<AE11>("AE11")));
    v.push(sops::<AN12>("AN12").native(ops::<AN12>("AN12")));
    v.push(sops::<AW12>("AW12").native(ops::<AW12>("AW12")));
    v.push(sops::<AP12>("AP12").native(ops::<AP12>("AP12")));
    v.push(sops::<AT12>("AT12").native(ops::<AT12>("AT12")));
    v.push(sops::<AE12>("AE12").native(ops::<AE12>("AE12")));
    v.push(sops::<AN13>("AN13").native(ops::<AN13>("AN13")));
    v.push(sops::<AW13>("AW13").native(ops::<AW13>("AW13")));
    v.push(sops::<AP13>("AP13").native(ops::<AP13>("AP13")));
    v.push(sops::<AT13>("AT13").native(ops::<AT13>("AT13")));
    v.push(sops::<AE13>("AE13").native(ops::<AE13>("AE13")));
    v.push(sops::<AN14>("AN14").native(ops::<AN14>("AN14")));
    v.push(sops::<AW14>("AW14").native(ops::<AW14>("AW14")));
    v.push(sops::<AP14>("AP14").native(ops::<AP14>("AP14")));
    v.push(sops::<AT14>("AT14").native(ops::<AT14>("AT14")));
    v.push(sops::<AE14>("AE14").native(ops::<AE14>("AE14")));
    v.push(sops::<AN15>("AN15").native(ops::<AN15>("AN15")));
    v.push(sops::<AW15>("AW15").native(ops::<AW15>("AW15")));
    v.push(sops::<AP15>("AP15").native(ops::<AP15>("AP15")));
    v.push(sops::<AT15>("AT15").native(ops::<AT15>("AT15")));
    v.push(sops::<AE15>("AE15").native(ops::<AE15>("AE15")));
    v.push(sops::<AN16>("AN16").native(ops::<AN16>("AN16")));
    v.push(sops::<AW16>("AW16").native(ops::<AW16>("AW16")));
    v.push(sops::<AP16>("AP16").native(ops::<AP16>("AP16")));
    v.push(sops::<AT16>("AT16").native(ops::<AT16>("AT16")));
    v.push(sops::<AE16>("AE16").native(ops::<AE16>("AE16")));
    v.push(sops::<AN17>("AN17").native(ops::<AN17>("AN17")));
    v.push(sops::<AW17>("AW17").native(ops::<AW17>("AW17")));
    v.push(sops::<AP17>("AP17").native(ops::<AP17>("AP17")));
    v.push(sops::<AT17>("AT17").native(ops::<AT17>("AT17")));
    v.push(sops::<AE17>("AE17").native(ops::<AE17>("AE17")));
    v.push(sops::<AN18>("AN18").native(ops::<AN18>("AN18")));
    v.push(sops::<AW18>("AW18").native(ops::<AW18>("AW18")));
    v.push(sops::<AP18>("AP18").native(ops::<AP18>("AP18")));
    v.push(sops::<AT18>("AT18").native(ops::<AT18>("AT18")));
    v.push(sops::<AE18>("AE18").native(ops::<AE18>("AE18")));
    v.push(sops::<AN19>("AN19").native(ops::<AN19>("AN19")));
    v.push(sops::<AW19>("AW19").native(ops::<AW19>("AW19")));
    v.push(sops::<AP19>("AP19").native(ops::<AP19>("AP19")));
    v.push(sops::<AT19>("AT19").native(ops::<AT19>("AT19")));
    v.push(sops::<AE19>("AE19").native(ops::<AE19>("AE19")));
    v.push(sops::<AN20>("AN20").native(ops::<AN20>("AN20")));
    v.push(sops::<AW20>("AW20").native(ops::<AW20>("AW20")));
    v.push(sops::<AP20>("AP20").native(ops::<AP20>("AP20")));
    v.push(sops::<AT20>("AT20").native(ops::<AT20>("AT20")));
    v.push(sops::<AE20>("AE20").native(ops::<AE20>("AE20")));
    v.push(sops::<AN21>("AN21").native(ops::<AN21>("AN21")));
    v.push(sops::<AW21>("AW21").native(ops::<AW21>("AW21")));
    v.push(sops::<AP21>("AP21").native(ops::<AP21>("AP21")));
    v.push(sops::<AT21>("AT21").native(ops::<AT21>("AT21")));
    v.push(sops::<AE21>("AE21").native(ops::<AE21>("AE21")));
    v.push(sops::<AN22>("AN22").native(ops::<AN22>("AN22")));
    v.push(sops::<AW22>("AW22").native(ops::<AW22>("AW22")));
    v.push(sops::<AP22>("AP22").native(ops::<AP22>("AP22")));
    v.push(sops::<AT22>("AT22").native(ops::<AT22>("AT22")));
    v.push(sops::<AE22>("AE22").native(ops::<AE22>("AE22")));
    v.push(sops::<AN23>("AN23").native(ops::<AN23>("AN23")));
    v.push(sops::<AW23>("AW23").native(ops::<AW23>("AW23")));
    v.push(sops::<AP23>("AP23").native(ops::<AP23>("AP23")));
    v.push(sops::<AT23>("AT23").native(ops::<AT23>("AT23")));
    v.push(sops::<AE23>("AE23").native(ops::<AE23>("AE23")));
    v.push(sops::<AN24>("AN24").native(ops::<AN24>("AN24")));
    v.push(sops::<AW24>("AW24").native(ops::<AW24>("AW24")));
    v.push(sops::<AP24>("AP24").native(ops::<AP24>("AP24")));
    v.push(sops::<AT24>("AT24").native(ops::<AT24>("AT24")));
    v.push(sops::<AE24>("AE24").native(ops::<AE24>("AE24")));
    v.push(sops::<AN25>("AN25").native(ops::<AN25>("AN25")));
    v.push(sops::<AW25>("AW25").native(ops::<AW25>("AW25")));
    v.push(sops::<AP25>("AP25").native(ops::<AP25>("AP25")));
    v.push(sops::<AT25>("AT25").native(ops::<AT25>("AT25")));
    v.push(sops::<AE25>("AE25").native(ops::<AE25>("AE25")));
    v.push(sops::<AN26>("AN26").native(ops::<AN26>("AN26")));
    v.push(sops::<AW26>("AW26").native(ops::<AW26>("AW26")));
    v.push(sops::<AP26>("AP26").native(ops::<AP26>("AP26")));
    v.push(sops::<AT26>("AT26").native(ops::<AT26>("AT26")));
    v.push(sops::<AE26>("AE26").native(ops::<AE26>("AE26")));
    v.push(sops::<AN27>("AN27").native(ops::<AN27>("AN27")));
    v.push(sops::<AW27>("AW27").native(ops::<AW27>("AW27")));
    v.push(sops::<AP27>("AP27").native(ops::<AP27>("AP27")));
    v.push(sops::<AT27>("AT27").native(ops::<AT27>("AT27")));
    v.push(sops::<AE27>("AE27").native(ops::<AE27>("AE27")));
    v.push(sops::<AN28>("AN28").native(ops::<AN28>("AN28")));
    v.push(sops::<AW28>("AW28").native(ops::<AW28>("AW28")));
    v.push(sops::<AP28>("AP28").native(ops::<AP28>("AP28")));
    v.push(sops::<AT28>("AT28").native(ops::<AT28>("AT28")));
    v.push(sops::<AE28>("AE28").native(ops::<AE28>("AE28")));
    v.push(sops::<Many>("Many").native(ops::<Many>("Many")));
    v.push(sops::<ManyT>("ManyT").native(ops::<ManyT>("ManyT")));
    v.push(sops::<ManyV>("ManyV").native(ops::<ManyV>("ManyV")));
    v.push(sops::<R1>("R1").native(ops::<R1>("R1")));
    v.push(sops::<R2>("R2").native(ops::<R2>("R2")));
    v.push(sops::<R3>("R3").native(ops::<R3>("R3")));
    v.push(sops::<G1<u16>>("G1<u16>").native(ops::<G1<u16>>("G1<u16>")));
    v.push(sops::<G1<G2<String>>>("G1<G2<String>>").native(ops::<G1<G2<String>>>("G1<G2<String>>")));
    v.push(sops::<G2<EN>>("G2<EN>").native(ops::<G2<EN>>("G2<EN>")));
    v.push(sops::<G2<G1<i64>>>("G2<G1<i64>>").native(ops::<G2<G1<i64>>>("G2<G1<i64>>")));
    v.push(sops::<G2<R3>>("G2<R3>").native(ops::<G2<R3>>("G2<R3>")));
}

pub fn only(v: &mut Vec<SOps>) {
    v.push(sops::<BN0>("BN0"));
    v.push(sops::<BW0>("BW0"));
    v.push(sops::<BP0>("BP0"));
    v.push(sops::<BT0>("BT0"));
    v.push(sops::<BE0>("BE0"));
    v.push(sops::<BN1>("BN1"));
    v.push(sops::<BW1>("BW1"));
    v.push(sops::<BP1>("BP1"));
    v.push(sops::<BT1>("BT1"));
    v.push(sops::<BE1>("BE1"));
    v.push(sops::<BN2>("BN2"));
    v.push(sops::<BW2>("BW2"));
    v.push(sops::<BP2>("BP2"));
    v.push(sops::<BT2>("BT2"));
    v.push(sops::<BE2>("BE2"));
    v.push(sops::<BN3>("BN3"));
    v.push(sops::<BW3>("BW3"));
    v.push(sops::<BP3>("BP3"));
    v.push(sops::<BT3>("BT3"));
    v.push(sops::<BE3>("BE3"));
    v.push(sops::<BN4>("BN4"));
    v.push(sops::<BW4>("BW4"));
    v.push(sops::<BP4>("BP4"));
    v.push(sops::<BT4>("BT4"));
    v.push(sops::<BE4>("BE4"));
    v.push(sops::<BN5>("BN5"));
    v.push(sops::<BW5>("BW5"));
    v.push(sops::<BP5>("BP5"));
    v.push(sops::<BT5>("BT5"));
    v.push(sops::<BE5>("BE5"));
    v.push(sops::<BN6>("BN6"));
    v.push(sops::<BW6>("BW6"));
    v.push(sops::<BP6>("BP6"));
    v.push(sops::<BT6>("BT6"));
    v.push(sops::<BE6>("BE6"));
    v.push(sops::<BN7>("BN7"));
    v.push(sops::<BW7>("BW7"));
    v.push(sops::<BP7>("BP7"));
    v.push(sops::<BT7>("BT7"));
    v.push(sops::<BE7>("BE7"));
    v.push(sops::<BN8>("BN8"));
    v.push(sops::<BW8>("BW8"));
    v.push(sops::<BP8>("BP8"));
    v.push(sops::<BT8>("BT8"));
    v.push(sops::<BE8>("BE8"));
    v.push(sops::<BN9>("BN9"));
    v.push(sops::<BW9>("BW9"));
    v.push(sops::<BP9>("BP9"));
    v.push(sops::<BT9>("BT9"));
    v.push(sops::<BE9>("BE9"));
    v.push(sops::<BN10>("BN10"));
    v.push(sops::<BW10>("BW10"));
    v.push(sops::<BP10>("BP10"));
    v.push(sops::<BT10>("BT10"));
    v.push(sops::<BE10>("BE10"));
    v.push(sops::<BN11>("BN11"));
    v.push(sops::<BW11>("BW11"));
    v.push(sops::<BP11>("BP11"));
    v.push(sops::<BT11>("BT11"));
    v.push(sops::<BE11>("BE11"));
    v.push(sops::<Attr1>("Attr1"));
    v.push(sops::<Attr2>("Attr2"));
    v.push(sops::<Attr3>("Attr3"));
    v.push(sops::<Attr4>("Attr4"));
    v.push(sops::<Attr5>("Attr5"));
    v.push(sops::<Attr6>("Attr6"));
    v.push(sops::<R4>("R4"));
    v.push(sops::<R5>("R5"));
    v.push(sops::<R6>("R6"));
    v.push(sops::<R7>("R7"));
    v.push(sops::<R8>("R8"));
}
