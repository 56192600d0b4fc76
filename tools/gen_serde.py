#!/usr/bin/env python3
"""Writes mc/serde/src/serde_types.rs."""
import os
from gen_common import *

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'mc/serde/src/serde_types.rs')
SD = ['Clone', 'Debug', 'PartialEq', 'Serialize', 'Deserialize']
BOTH = SD + ['Encode', 'Decode']
src, shared, only = [], [], []

def add(x, both, attr='serde'):
    src.append(x.emit(BOTH if both else SD, 'cbor' if both else attr))
    if x.impl_generics:
        return
    (shared if both else only).append(x.name + x.ty_args)

add(Struct('SN', 'Named', [Field('x', 'u8'), Field('long_field_name_of_its_own', 'String')]), True)
add(Enum('EN', [Variant('Nil'), Variant('Num', 'Tuple', [Field(None, 'i32')]), Variant('Zz'), Variant('Two', 'Tuple', [Field(None, 'u8'), Field(None, 'bool')]),
    Variant('Rec', 'Named', [Field('b', 'u8'), Field('aa', 'String')])], rust_default='D::Var(0, vec![])'), True)
SHARED = ['u8', 'u16', 'i8', 'u64', 'i64', 'u128', 'bool', 'char', 'String', '()', 'Option<u16>', 'Option<String>', 'Vec<u16>', '(u8, String)', 'BTreeMap<String, u8>',
          'BTreeMap<u8, EN>', 'SN', 'EN', 'Option<SN>', 'Option<EN>', '[u16; 2]', 'Vec<EN>', 'Vec<SN>', 'BTreeMap<SKey, i8>', 'Vec<Vec<String>>', 'Option<Vec<u16>>', '(EN, SN)', 'HashMap<String, i64>', 'BTreeSet<i8>']
src.append('''#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize, Encode, Decode)]
#[cbor(no_default)]
pub struct SKey(pub u8, pub String);
impl Subj for SKey {
    fn ty() -> Ty {
        let fields = vec![fld(NULL, u8::ty()), fld(NULL, String::ty())];
        Ty::Struct(Arc::new(StructTy { name: "SKey".into(), shape: Shape::Tuple, transparent: false, as_array: false, allow_unknown: false, fields, default: None }))
    }
    fn to_d(&self) -> D {
        D::Seq(vec![self.0.to_d(), self.1.to_d()])
    }
    fn from_d(d: &D) -> Self {
        SKey(Subj::from_d(&d.seq()[0]), Subj::from_d(&d.seq()[1]))
    }
}
''')
add(Struct('Unit0', 'Unit', []), True)
add(Struct('None0', 'Named', []), True)
add(Struct('Tup0', 'Tuple', []), True)

def family(p, types, both):
    n = len(types)
    for i, t in enumerate(types):
        u = types[(i * 7 + 3) % n]
        add(Struct(f'{p}N{i}', 'Named', [Field('only', t)]), both)
        add(Struct(f'{p}W{i}', 'Tuple', [Field(None, t)]), both)
        add(Struct(f'{p}P{i}', 'Named', [Field('bb', t), Field('a', u), Field('cc', 'u8')]), both)
        add(Struct(f'{p}T{i}', 'Tuple', [Field(None, t), Field(None, u)]), both)
        add(Enum(f'{p}E{i}', [
            Variant('U'), Variant('N', 'Tuple', [Field(None, t)]), Variant('Tu', 'Tuple', [Field(None, t), Field(None, 'u8')]),
            Variant('R', 'Named', [Field('bb', t), Field('a', u)]), Variant('E0', 'Named', []), Variant('T0', 'Tuple', []), Variant('Last')]), both)

family('A', SHARED, True)
ONLY = ['Vec<u8>', 'ByteBuf', '[u8; 3]', 'Option<ByteBuf>', 'Vec<Vec<u8>>', 'BTreeMap<ByteBuf, u8>', 'HashSet<u16>', 'AN0', 'AE1', 'Option<AW3>', '(ByteBuf, Vec<u8>)', 'BTreeMap<String, ByteBuf>']
family('B', ONLY, False)
dflt = dict(opt=True)
add(Struct('Attr1', 'Named', [
    Field('b', 'Option<u8>', ['skip_serializing_if = "Option::is_none"'], skip_if='|d| *d == D::None'),
    Field('a', 'u64', ['default'], **dflt),
    Field('v', 'Vec<String>', ['default', 'skip_serializing_if = "Vec::is_empty"'], skip_if='|d| d.seq().is_empty()', **dflt)]), False)
add(Struct('Attr2', 'Named', [
    Field('x', 'u8', ['rename = "y"'], key='y'), Field('y', 'String', ['rename = "x"'], key='x'), Field('e', 'i16', ['rename = ""'], key=''),
    Field('skipped', 'u32', ['skip'], skip=True), Field('u', 'i64', ['rename = "\\u{e9}"'], key='é')]), False)
add(Struct('Attr3', 'Named', [Field('some_name', 'u8', key='someName'), Field('the_other', 'Option<char>', key='theOther')], ['rename_all = "camelCase"']), False)
add(Struct('Attr4', 'Named', [Field('inner', 'AP5')], ['transparent']), False)
add(Struct('Attr5', 'Tuple', [Field(None, 'AE13')], ['transparent']), False)
add(Enum('Attr6', [
    Variant('OneThing', key='one-thing'), Variant('Other', 'Tuple', [Field(None, 'u8')], ['rename = "1"'], key='1'),
    Variant('Rec', 'Named', [Field('skipped', 'u8', ['skip'], skip=True), Field('kept', 'String', ['rename = "k"'], key='k')], key='rec')], ['rename_all = "kebab-case"']), False)
add(Struct('Many', 'Named', [Field(f'f{i}', ['u8', 'String', 'Option<i8>', 'bool'][i % 4]) for i in range(30)]), True)
add(Struct('ManyT', 'Tuple', [Field(None, ['u8', 'String', 'Option<i8>', 'bool'][i % 4]) for i in range(26)]), True)
add(Enum('ManyV', [Variant(f'V{i}', ['Unit', 'Tuple', 'Named'][i % 3], [] if i % 3 == 0 else [Field('q', 'i64')] + ([Field('r', 'u8')] if i % 2 else [])) for i in range(40)]), True)
# Inside themselves.
def rec(t, ty, name='a', attrs=(), **kw):
    r = f'Ty::Rec({t}::ty)'
    d = {'Vec<{t}>': f'Ty::Seq(Arc::new({r}))', 'BTreeMap<String, {t}>': f'Ty::Map(Arc::new(String::ty()), Arc::new({r}))', 'Option<Box<{t}>>': f'Ty::Opt(Arc::new({r}))', 'Box<{t}>': r,
         'Option<Vec<{t}>>': f'Ty::Opt(Arc::new(Ty::Seq(Arc::new({r}))))'}
    return Field(name, ty.format(t=t), attrs, rec=d[ty], **kw)
zero = dict(rust_default='D::Var(0, vec![])')
add(Struct('R1', 'Named', [Field('b', 'u8'), rec('R1', 'Vec<{t}>')]), True)
add(Struct('R2', 'Tuple', [rec('R2', 'BTreeMap<String, {t}>'), Field(None, 'Option<bool>')]), True)
add(Enum('R3', [Variant('Nil'), Variant('Leaf', 'Tuple', [Field(None, 'u8')]), Variant('Kids', 'Tuple', [rec('R3', 'Vec<{t}>')]), Variant('Both', 'Named', [rec('R3', 'Vec<{t}>', 'k'), rec('R3', 'BTreeMap<String, {t}>', 'm')])], **zero), True)
add(Struct('R4', 'Named', [rec('R4', 'Option<Box<{t}>>', 'next'), Field('v', 'i16')]), False)
add(Enum('R5', [Variant('Nil'), Variant('Not', 'Tuple', [rec('R5', 'Box<{t}>')]), Variant('And', 'Tuple', [rec('R5', 'Box<{t}>'), rec('R5', 'Box<{t}>')]), Variant('If', 'Named', [rec('R5', 'Box<{t}>', 'cond'), rec('R5', 'Option<Box<{t}>>', 'els')])], **zero), False)
add(Struct('R6', 'Tuple', [rec('R6', 'Vec<{t}>')]), False)
add(Struct('R7', 'Named', [rec('R8', 'Vec<{t}>'), Field('m', 'BTreeMap<u8, R3>')]), False)
add(Enum('R8', [Variant('Stop'), Variant('Back', 'Tuple', [rec('R7', 'Box<{t}>')])], **zero), False)
# Generic ones.
GB = 'T: Subj + Encode + Decode + Default'
add(Struct('G1', 'Named', [Field('b', 'T'), Field('a', 'Vec<T>')], generics='<T>', ty_args='<T>', bounds=GB), True)
add(Enum('G2', [Variant('Nil'), Variant('One', 'Tuple', [Field(None, 'T')]), Variant('Two', 'Named', [Field('t', 'T'), Field('o', 'Option<T>')])], generics='<T>', ty_args='<T>', bounds=GB, **zero), True)
for t in ['G1<u16>', 'G1<G2<String>>', 'G2<EN>', 'G2<G1<i64>>', 'G2<R3>']:
    shared.append(t)

with open(out, 'w') as f:
    f.write(HEADER.format(tool='gen_serde.py', crate='mctyped', extra='use serde::{Deserialize, Serialize};\nuse serde_bytes::ByteBuf;\nuse crate::serde_subj::*;'))
    f.write('\n'.join(src))
    f.write('\n\npub fn shared(v: &mut Vec<SOps>) {\n')
    for n in shared:
        f.write(f'    v.push(sops::<{n}>("{n}").native(ops::<{n}>("{n}")));\n')
    f.write('}\n\npub fn only(v: &mut Vec<SOps>) {\n')
    for n in only:
        f.write(f'    v.push(sops::<{n}>("{n}"));\n')
    f.write('}\n')
