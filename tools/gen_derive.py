#!/usr/bin/env python3
"""Writes mc/structs/src/types.rs and mc/enums/src/types.rs."""
import os
from gen_common import *

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DV = ['Encode', 'Decode']
ED = ['Encode']

CODECS = r'''
pub fn ser_num(x: &u16) -> String {
    x.to_string()
}
pub fn de_num(s: String) -> Result<u16, DecodeError> {
    s.parse().map_err(|_| DecodeError::UnexpectedIntegerSize)
}
fn to_num(d: &D) -> R {
    match d {
        D::Str(s) => match s.parse::<u16>() {
            Ok(n) => R::Ok(D::Int(n as i128)),
            Err(_) => R::Err(SIZE),
        },
        _ => panic!(),
    }
}
pub fn num() -> Codec {
    Codec { wire: Ty::Str, enc: |d| D::Str(d_int(d).to_string()), dec: to_num }
}
pub fn ser_pos(x: &u16) -> Option<String> {
    if *x == 0 { None } else { Some(x.to_string()) }
}
pub fn de_pos(s: Option<String>) -> Result<u16, DecodeError> {
    s.map_or(Ok(0), de_num)
}
/// Zero as nothing.
pub fn pos() -> Codec {
    Codec {
        wire: Ty::Opt(Arc::new(Ty::Str)),
        enc: |d| if d_int(d) == 0 { D::None } else { D::Some(Box::new(D::Str(d_int(d).to_string()))) },
        dec: |d| match d {
            D::Some(d) => to_num(d),
            _ => R::Ok(D::Int(0)),
        },
    }
}
pub fn ser_clamp(x: &u8) -> u8 {
    (*x).min(100)
}
pub fn clamp() -> Codec {
    Codec { wire: Ty::Uint(8), enc: |d| D::Int(d_int(d).min(100)), dec: |d| R::Ok(d.clone()) }
}
pub fn de_inc(x: u8) -> Result<u8, DecodeError> {
    x.checked_add(1).ok_or(DecodeError::UnexpectedIntegerSize)
}
pub fn inc() -> Codec {
    Codec { wire: Ty::Uint(8), enc: |d| d.clone(), dec: |d| if d_int(d) < 255 { R::Ok(D::Int(d_int(d) + 1)) } else { R::Err(SIZE) } }
}
/// Without a default to start from.
pub fn ser_wrap(x: &Vec<u8>) -> EN {
    match x.len() {
        0 => EN::Nil,
        n => EN::Num(n as i32),
    }
}
pub fn de_wrap(e: EN) -> Result<Vec<u8>, DecodeError> {
    match e {
        EN::Nil => Ok(vec![]),
        EN::Num(n) if n > 0 && n < 300 => Ok(vec![1; n as usize]),
        _ => Err(DecodeError::UnexpectedType),
    }
}
pub fn wrap() -> Codec {
    Codec {
        wire: EN::ty(),
        enc: |d| match d {
            D::Bytes(b) if b.is_empty() => D::Var(0, vec![]),
            D::Bytes(b) => D::Var(1, vec![D::Int(b.len() as i128)]),
            _ => panic!(),
        },
        dec: |d| match d {
            D::Var(0, _) => R::Ok(D::Bytes(vec![])),
            D::Var(1, v) if d_int(&v[0]) > 0 && d_int(&v[0]) < 300 => R::Ok(D::Bytes(vec![1; d_int(&v[0]) as usize])),
            _ => R::Err(TYPE),
        },
    }
}
/// Under a name of its own.
pub fn ser_under(x: &u8) -> BTreeMap<String, u8> {
    [("under".to_string(), *x)].into_iter().collect()
}
pub fn de_under(m: BTreeMap<String, u8>) -> Result<u8, DecodeError> {
    match m.get("under") {
        Some(x) if m.len() == 1 => Ok(*x),
        _ => Err(DecodeError::MissingField),
    }
}
pub fn under() -> Codec {
    Codec {
        wire: Ty::Map(Arc::new(Ty::Str), Arc::new(Ty::Uint(8))),
        enc: |d| D::Map(vec![(D::Str("under".into()), d.clone())]),
        dec: |d| match d {
            D::Map(m) if m.len() == 1 && m[0].0 == D::Str("under".into()) => R::Ok(m[0].1.clone()),
            _ => R::Err(MISSING),
        },
    }
}
pub fn is_seven(x: &u8) -> bool {
    *x == 7
}
fn d_int(d: &D) -> i128 {
    match d {
        D::Int(n) => *n,
        _ => panic!(),
    }
}
'''
LONG = 'a_field_name_of_at_least_24_bytes'


class File:
    def __init__(self):
        self.src, self.regs = [], []

    def add(self, x, derives=None, kind=None, **kw):
        untagged = isinstance(x, Enum) and 'untagged' in x.attrs
        self.src.append(x.emit(derives or (ED if untagged else DV), **kw))
        if not x.generics:
            self.reg(x.name, kind or ('enc' if untagged else 'both'))

    def reg(self, t, kind='both'):
        self.regs.append((t, kind))

    def write(self, path, tool='gen_derive.py'):
        with open(path, 'w') as f:
            f.write(HEADER.format(tool=tool, crate='mctyped', extra='use mctyped::marked;\nuse oasis_cbor::DecodeError;'))
            f.write(CODECS)
            f.write('\n'.join(self.src))
            f.write('\n\npub fn types() -> Vec<Ops> {\n    let mut v = vec![];\n')
            for i in range(0, len(self.regs), 50):
                f.write(f'    types{i // 50}(&mut v);\n')
            f.write('    v\n}\n')
            for i in range(0, len(self.regs), 50):
                f.write(f'fn types{i // 50}(v: &mut Vec<Ops>) {{\n')
                for t, kind in self.regs[i:i + 50]:
                    f.write(f'    v.push(marked!({t}, {"ops" if kind == "both" else "enc_ops"}::<{t}>({rs(t)})));\n')
                f.write('}\n')


def support(f):
    f.add(Enum('EN', [Variant('Nil'), Variant('Num', 'Tuple', [Field(None, 'i32')]), Variant('Zz')], rust_default='D::Var(0, vec![])'))
    f.add(Struct('NS', 'Named', [Field('q', 'u8', ['optional'], opt=True), Field('p', 'Option<String>', ['optional'], opt=True)]))
    f.add(Struct('NM', 'Named', [Field('p', 'u8'), Field('k', 'String')]))
    f.add(Struct('TW', 'Tuple', [Field(None, 'Option<u8>')], ['transparent']))
    f.add(Struct('UN', 'Unit', []))
    f.add(Struct('AR', 'Named', [Field('x', 'u8'), Field('y', 'bool')], ['as_array']))
    f.add(Struct('ND', 'Named', [Field('x', 'u8')], ['no_default'], default='none', ), default_impl=False)
    f.add(Enum('ED', [Variant('First'), Variant('Second', 'Tuple', [Field(None, 'u8')]), Variant('Third', attrs=['rename = 3'], key=3)], ['with_default'], default='D::Var(2, vec![])'))


# Field kinds: number -> function of (name, position).
def fkinds(named=True):
    def plain(t):
        return lambda n, i: Field(n, t)
    def opt(t):
        return lambda n, i: Field(n, t, ['optional'], opt=True)
    k = {
        'u8': plain('u8'),
        'Str': plain('String'),
        'Opt': plain('Option<u16>'),
        'OOpt': opt('Option<u8>'),
        'ONum': opt('u64'),
        'OVec': lambda n, i: Field(n, 'Vec<u8>', ['optional', 'skip_serializing_if = "Vec::is_empty"'], opt=True, skip_if='|d| *d == D::Bytes(vec![])'),
        'Skip': lambda n, i: Field(n, 'u32', ['skip'], skip=True),
        'RText': lambda n, i: Field(n, 'i8', [f'rename = {rs(("q", "", "é")[i])}'], key=("q", "", "é")[i]),
        'RNum': lambda n, i: Field(n, 'i16', [f'rename = {(7, 300, 24)[i]}'], key=(7, 300, 24)[i]),
        'RLong': lambda n, i: Field(n, 'bool', [f'rename = {rs(LONG[:23 + i])}'], key=LONG[:23 + i]),
        'With': lambda n, i: Field(n, 'u16', ['serialize_with = "ser_num"', 'deserialize_with = "de_num"'], codec='num'),
        'OWith': lambda n, i: Field(n, 'u16', ['optional', 'serialize_with = "ser_pos"', 'deserialize_with = "de_pos"'], opt=True, codec='pos'),
        'Ser': lambda n, i: Field(n, 'u8', ['serialize_with = "ser_clamp"'], codec='clamp'),
        'De': lambda n, i: Field(n, 'u8', ['deserialize_with = "de_inc"'], codec='inc'),
        'Val': plain('Value'),
        'NS': plain('NS'),
        'ONS': opt('NS'),
        'EN': plain('EN'),
        'ORNum': lambda n, i: Field(n, 'u8', [f'rename = {(0, 1000000, 256)[i]}', 'optional', 'skip_serializing_if = "is_seven"'], key=(0, 1000000, 256)[i], opt=True, skip_if='|d| *d == D::Int(7)'),
    }
    more = {
        'OVal': opt('Value'),
        'OTup': opt('(u8, String)'),
        'OTW': opt('TW'),
        'OUN': opt('UN'),
        'UN': plain('UN'),
        'OAR': opt('AR'),
        'AR': plain('AR'),
        'ND': plain('ND'),
        'OND': opt('ND'),
        'ED': plain('ED'),
        'OED': opt('ED'),
        'OEN': opt('EN'),
        'OptEN': plain('Option<EN>'),
        'Arr': plain('[u16; 2]'),
        'OArr': opt('[u8; 2]'),
        'Unit': plain('()'),
        'OUnit': opt('()'),
        'WithNs': lambda n, i: Field(n, 'Vec<u8>', ['serialize_with = "ser_wrap"', 'deserialize_with = "de_wrap"'], codec='wrap'),
        'OWithIf': lambda n, i: Field(n, 'u8', ['optional', 'skip_serializing_if = "is_seven"', 'serialize_with = "ser_clamp"'], opt=True, skip_if='|d| *d == D::Int(7)', codec='clamp'),
        'OROpt': lambda n, i: Field(n, 'Option<String>', ['optional', f'rename = {rs(("zz", "b", "0")[i])}', 'skip_serializing_if = "Option::is_none"'], key=("zz", "b", "0")[i], opt=True, skip_if='|d| *d == D::None'),
        'OStrIf': lambda n, i: Field(n, 'String', ['optional', 'skip_serializing_if = "String::is_empty"'], opt=True, skip_if='|d| *d == D::Str(String::new())'),
        'SkipRen': lambda n, i: Field(n, 'u8', ['skip', f'rename = {rs(("aa", "c", "k")[i])}'], skip=True, key=("aa", "c", "k")[i]),
        'SkipOpt': lambda n, i: Field(n, 'Option<NS>', ['skip', 'optional'], skip=True),
        'SkipCod': lambda n, i: Field(n, 'u16', ['serialize_with = "ser_num"', 'skip', 'deserialize_with = "de_num"'], skip=True, codec='num'),
        'SkipIf': lambda n, i: Field(n, 'u8', ['optional', 'skip', 'skip_serializing_if = "is_seven"'], skip=True),
        'IfOnly': lambda n, i: Field(n, 'u8', ['skip_serializing_if = "is_seven"']),
        'RWith': lambda n, i: Field(n, 'u16', [f'rename = {(2, 70000, 60)[i]}', 'deserialize_with = "de_num"', 'serialize_with = "ser_num"'], key=(2, 70000, 60)[i], codec='num'),
        'OSer': lambda n, i: Field(n, 'u8', ['serialize_with = "ser_clamp"', 'optional'], opt=True, codec='clamp'),
        'ODe': lambda n, i: Field(n, 'u8', ['deserialize_with = "de_inc"', 'optional'], opt=True, codec='inc'),
        'Und': lambda n, i: Field(n, 'u8', ['serialize_with = "ser_under"', 'deserialize_with = "de_under"'], codec='under'),
        'OUnd': lambda n, i: Field(n, 'u8', ['optional', 'serialize_with = "ser_under"', 'deserialize_with = "de_under"'], opt=True, codec='under'),
        'Map': plain('BTreeMap<String, NS>'),
        'HMap': plain('HashMap<String, u8>'),
        'HSet': plain('HashSet<u16>'),
        'VecNS': plain('Vec<NS>'),
        'u128': plain('u128'),
        'char': plain('char'),
    }
    return k, more


# The only field of a newtype, with functions of its own.
CODED = {
    'CNum': lambda: Field(None, 'u16', ['serialize_with = "ser_num"', 'deserialize_with = "de_num"'], codec='num'),
    'CPos': lambda: Field(None, 'u16', ['serialize_with = "ser_pos"', 'deserialize_with = "de_pos"'], codec='pos'),
    'CSer': lambda: Field(None, 'u8', ['serialize_with = "ser_clamp"'], codec='clamp'),
    'CDe': lambda: Field(None, 'u8', ['deserialize_with = "de_inc"'], codec='inc'),
    'CWrap': lambda: Field(None, 'Vec<u8>', ['serialize_with = "ser_wrap"', 'deserialize_with = "de_wrap"'], codec='wrap'),
    'CUnder': lambda: Field(None, 'u8', ['serialize_with = "ser_under"', 'deserialize_with = "de_under"'], codec='under'),
}


def skipped_if(kind):
    return kind in ('OVec', 'ORNum', 'OWithIf', 'OROpt', 'OStrIf', 'IfOnly')


def structs():
    f = File()
    support(f)
    K, MORE = fkinds()
    ALL = {**K, **MORE}
    for a in ALL:
        f.add(Struct(f'S_{a}', 'Named', [ALL[a]('a', 0)]))
        f.add(Struct(f'L_{a}', 'Named', [ALL[a]('a', 0)], ['allow_unknown']))
        if not skipped_if(a):
            f.add(Struct(f'Y_{a}', 'Named', [ALL[a]('a', 0)], ['as_array']))
            f.add(Struct(f'T_{a}', 'Tuple', [ALL[a](None, 0)]))
            f.add(Struct(f'YU_{a}', 'Named', [ALL[a]('a', 0), Field('b', 'bool')], ['as_array', 'allow_unknown']))
    names = list(K)
    for a in names:
        for b in names:
            f.add(Struct(f'S_{a}_{b}', 'Named', [K[a]('bb', 0), K[b]('a', 1)]))
    for i, a in enumerate(names):
        for j, b in enumerate(names):
            if (i + j) % 3 == 0:
                f.add(Struct(f'L_{a}_{b}', 'Named', [K[a]('bb', 0), K[b]('a', 1)], ['allow_unknown']))
            if (i + 2 * j) % 3 == 0 and not skipped_if(a) and not skipped_if(b):
                f.add(Struct(f'Y_{a}_{b}', 'Named', [K[a]('bb', 0), K[b]('a', 1)], ['as_array']))
                f.add(Struct(f'T_{a}_{b}', 'Tuple', [K[a](None, 0), K[b](None, 1)]))
    for i, a in enumerate(MORE):
        b = names[(i * 5) % len(names)]
        f.add(Struct(f'S_{a}_{b}', 'Named', [MORE[a]('bb', 0), K[b]('a', 1)]))
        f.add(Struct(f'L_{b}_{a}', 'Named', [K[b]('bb', 0), MORE[a]('a', 1)], ['allow_unknown']))
    # Three fields, in every declaration order.
    trip = [('u8', 'ONum', 'Skip'), ('RNum', 'Str', 'OOpt'), ('Skip', 'Skip', 'u8'), ('RText', 'RLong', 'RNum'), ('OWith', 'ONS', 'With'), ('ORNum', 'OVec', 'OOpt'),
            ('Val', 'Skip', 'EN'), ('NS', 'u8', 'ONS'), ('u8', 'u8', 'u8'), ('RNum', 'RNum', 'RNum'), ('RText', 'RText', 'RText'), ('RLong', 'RLong', 'RLong')]
    for n, (a, b, c) in enumerate(trip):
        for m, nm in enumerate([('a', 'b', 'c'), ('c', 'a', 'b'), ('b', 'c', 'aa'), ('cc', 'b', 'a')]):
            fs = [K[x](y, i) for i, (x, y) in enumerate(zip((a, b, c), nm))]
            f.add(Struct(f'S3_{n}_{m}', 'Named', fs))
            if m % 2:
                f.add(Struct(f'L3_{n}_{m}', 'Named', [K[x](y, i) for i, (x, y) in enumerate(zip((a, b, c), nm))], ['allow_unknown']))
        if not any(map(skipped_if, (a, b, c))):
            f.add(Struct(f'Y3_{n}', 'Named', [K[x](y, i) for i, (x, y) in enumerate(zip((a, b, c), 'zyx'))], ['as_array']))
            f.add(Struct(f'T3_{n}', 'Tuple', [K[x](None, i) for i, x in enumerate((a, b, c))]))
    # Names exchanged.
    f.add(Struct('Swap2', 'Named', [Field('a', 'u8', ['rename = "b"'], key='b'), Field('b', 'String', ['rename = "a"'], key='a')]))
    f.add(Struct('Swap2U', 'Named', [Field('a', 'u8', ['rename = "b"'], key='b'), Field('b', 'u8', ['rename = "a"'], key='a')]))
    f.add(Struct('Swap3', 'Named', [Field('a', 'u8', ['rename = "b"'], key='b'), Field('b', 'u16', ['rename = "c"'], key='c'), Field('c', 'u32', ['rename = "a"'], key='a')], ['allow_unknown']))
    f.add(Struct('SkipClash', 'Named', [Field('a', 'u8', ['skip'], skip=True), Field('b', 'u8', ['rename = "a"'], key='a')]))
    f.add(Struct('NumText', 'Named', [Field('a', 'u8', ['rename = "1"'], key='1'), Field('b', 'u8', ['rename = 1'], key=1), Field('c', 'u8', ['rename = 18446744073709551615'], key=18446744073709551615)]))
    # Order of keys: by length of the encoding before contents; by code units beyond ASCII.
    f.add(Struct('Order1', 'Named', [Field('b', 'u8'), Field('aa', 'u8'), Field('ab', 'u8'), Field('aaa', 'u8'), Field('B', 'u8')]))
    f.add(Struct('Order2', 'Named', [Field('x1', 'u8', ['rename = 23'], key=23), Field('x2', 'u8', ['rename = 24'], key=24), Field('x3', 'u8', ['rename = 255'], key=255), Field('x4', 'u8', ['rename = 256'], key=256),
        Field('x5', 'u8', ['rename = 65536'], key=65536), Field('x6', 'u8', ['rename = 4294967296'], key=4294967296)]))
    f.add(Struct('Order3', 'Named', [Field('x1', 'u8', ['rename = "\\u{ffff}"'], key='\uffff'), Field('x2', 'u8', ['rename = "\\u{10000}"'], key='\U00010000'), Field('x3', 'u8', ['rename = "z"'], key='z'), Field('x4', 'u8', ['rename = "zz"'], key='zz')]))
    f.add(Struct('NumDesc', 'Named', [Field('x1', 'u8', ['rename = 300'], key=300), Field('x2', 'String', ['rename = 30'], key=30), Field('x3', 'bool', ['rename = 3'], key=3)], ['allow_unknown']))
    for n in (23, 24, 255, 256):
        nm = 'n' * n
        f.add(Struct(f'NameLen{n}', 'Named', [Field(nm, 'u8'), Field('m' * n, 'u8')]))
    # Many fields.
    tys = ['u8', 'String', 'Option<i8>', 'bool', 'i64', 'Vec<u8>', 'NS', 'u128']
    f.add(Struct('Many12', 'Named', [Field(f'f{i * 7 % 12}', tys[i % 8]) for i in range(12)]))
    f.add(Struct('Many30', 'Named', [Field(f'f{i * 7 % 30}', tys[i % 8]) for i in range(30)]))
    f.add(Struct('Many30L', 'Named', [Field(f'f{i * 11 % 30}', tys[i % 8], ['optional'] if i % 2 else [], opt=bool(i % 2)) for i in range(30)], ['allow_unknown']))
    f.add(Struct('Many26A', 'Named', [Field(f'f{i}', tys[i % 8]) for i in range(26)], ['as_array']))
    f.add(Struct('Many26T', 'Tuple', [Field(None, tys[i % 8]) for i in range(26)]))
    f.add(Struct('Many70', 'Named', [Field(f'f{i * 11 % 70}', 'u8', ['optional'] if i % 3 else [], opt=bool(i % 3)) for i in range(70)]))
    f.add(Struct('Many140', 'Named', [Field(f'q{i}', 'u16', [f'rename = {i * 59 % 140 + 200}'], key=i * 59 % 140 + 200) for i in range(140)], ['allow_unknown']))
    f.add(Struct('Many260T', 'Tuple', [Field(None, 'u8') for i in range(260)]))
    f.add(Struct('Many40S', 'Named', [Field(f'f{i}', 'u8', ['skip'] if i % 2 else [], skip=bool(i % 2)) for i in range(40)]))
    # Names that generated code might use itself.
    NAMES = ['fields', 'it', 'value', 'v', 'key', 'map', 'items', 'inner', 'array', 'tag', 'result', 'index', 'decoded', 'item', 'x', 'a', 'f', 'field', 'other', 'name', 'values', 'iter', '__cbor', '__a0', '__a1', 'vec', 'none', 'default', 'try_default', 'into_cbor_value', 'std', 'core', 'oasis_cbor', 'u8']
    f.add(Struct('Names', 'Named', [Field(n, 'u8') for n in NAMES]))
    f.add(Struct('NamesL', 'Named', [Field(n, 'Option<u8>', ['optional'], opt=True) for n in NAMES[::-1]], ['allow_unknown']))
    f.add(Struct('NamesA', 'Named', [Field(n, 'u8', ['skip'] if i % 3 == 0 else [], skip=i % 3 == 0) for i, n in enumerate(NAMES)], ['as_array']))
    f.add(Struct('NamesW', 'Named', [Field(n, 'u8', ['serialize_with = "ser_clamp"', 'deserialize_with = "de_inc"'][i % 2:i % 2 + 1] + ['optional'] * (i % 3 == 0), codec=['clamp', 'inc'][i % 2], opt=i % 3 == 0) for i, n in enumerate(NAMES)]))
    for n in ['T', 'V', 'E', 'I', 'Value1', '__T']:
        f.add(Struct(f'GenName{n}', 'Named', [Field('a', n), Field('b', f'Vec<{n}>', ['optional'], opt=True)], generics=f'<{n}>', ty_args=f'<{n}>', bounds=f'{n}: Subj + Encode + Decode + Default'))
        f.reg(f'GenName{n}<u16>')
    # No fields.
    f.add(Struct('E0', 'Named', []))
    f.add(Struct('E0L', 'Named', [], ['allow_unknown']))
    f.add(Struct('E0A', 'Named', [], ['as_array']))
    f.add(Struct('T0', 'Tuple', []))
    f.add(Struct('U0', 'Unit', []))
    f.add(Struct('U0N', 'Unit', [], ['no_default'], default='none'), default_impl=False)
    f.add(Struct('E0N', 'Named', [], ['no_default'], default='none'), default_impl=False)
    # Transparent.
    for i, t in enumerate(['u8', 'String', 'Option<u16>', 'Vec<u8>', 'Value', 'NS', 'EN', '()', '[u16; 2]', 'S_ONum', 'TW', 'T_u8', 'BTreeMap<String, u8>', 'AR', 'ED', 'ND', 'U0', 'Vec<String>', '(u8, bool)', 'HashSet<u8>', 'u128', 'char']):
        f.add(Struct(f'W{i}', 'Tuple', [Field(None, t)], ['transparent']))
        f.add(Struct(f'WN{i}', 'Tuple', [Field(None, t)], ['transparent', 'no_default'], default='none'), default_impl=False)
        f.add(Struct(f'SW{i}', 'Named', [Field('a', f'W{i}', ['optional'], opt=True), Field('b', f'W{i}'), Field('c', f'WN{i}')]))
        f.add(Struct(f'AW{i}', 'Named', [Field('a', f'W{i}'), Field('c', f'WN{i}')], ['as_array']))
    for i, c in enumerate(CODED.values()):
        f.add(Struct(f'WC{i}', 'Tuple', [c()], ['transparent']))
        f.add(Struct(f'WCN{i}', 'Tuple', [c()], ['transparent', 'no_default'], default='none'), default_impl=False)
        f.add(Struct(f'NC{i}', 'Tuple', [c()]))
        f.add(Struct(f'SWC{i}', 'Named', [Field('a', f'WC{i}', ['optional'], opt=True), Field('b', f'WC{i}'), Field('c', f'WCN{i}'), Field('d', f'Option<WC{i}>')]))
        f.add(Struct(f'AWC{i}', 'Named', [Field('a', f'WC{i}'), Field('c', f'WCN{i}'), Field('v', f'Vec<WC{i}>')], ['as_array']))
        f.add(Struct(f'WWC{i}', 'Tuple', [Field(None, f'WC{i}')], ['transparent']))
    # Defaults.
    for i, t in enumerate(['u8', 'Option<String>', 'NS', 'EN', 'ND']):
        f.add(Struct(f'N1_{i}', 'Named', [Field('a', t)], ['no_default'], default='none'), default_impl=False)
        f.add(Struct(f'NT_{i}', 'Tuple', [Field(None, t), Field(None, 'u8')], ['no_default'], default='none'), default_impl=False)
        f.add(Struct(f'NA_{i}', 'Named', [Field('a', t)], ['no_default', 'as_array'], default='none'), default_impl=False)
        f.add(Struct(f'NO_{i}', 'Named', [Field('b', f'N1_{i}'), Field('a', f'NT_{i}', ['optional'], opt=True), Field('c', f'Option<NA_{i}>')], ['no_default', 'allow_unknown'], default='none'), default_impl=False)
    f.add(Struct('CD', 'Named', [Field('a', 'u8'), Field('b', 'String')], default='D::Seq(vec![D::Int(42), D::Str("dflt".into())])'))
    f.add(Struct('CDW', 'Named', [Field('x', 'CD'), Field('y', 'CD', ['skip'], skip=True), Field('z', 'Option<CD>')]))
    f.add(Struct('CDT', 'Tuple', [Field(None, 'CD'), Field(None, 'u8')], default='D::Seq(vec![D::Seq(vec![D::Int(1), D::Str(String::new())]), D::Int(9)])'))
    # One field of each standard type, plain and optional.
    std = ['u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'u128', 'bool', 'char', 'String', '()', 'Value', 'Vec<u8>', 'Vec<u16>', '[u8; 0]', '[u8; 3]', '[u16; 0]', '[u16; 2]', '(u8,)', '(u8, String)', '(Option<u8>, [u8; 2])', '((), ())',
           '(u8, EN)', 'Option<u8>', 'Option<String>', 'Option<Vec<u8>>', 'BTreeMap<String, u8>', 'HashMap<u8, String>', 'BTreeSet<u8>', 'HashSet<String>', 'Vec<Option<u8>>', 'Vec<Vec<u8>>', 'Option<Option<u8>>', 'Vec<()>', '(NS, u8)', 'Vec<EN>', '[NS; 2]',
           'BTreeMap<u8, Option<u8>>', '(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)', '(u8, [u16; 2])', 'Option<NS>', 'Option<UN>', 'Vec<UN>', 'Vec<TW>', 'Vec<ND>', 'Option<ND>', '[EN; 1]', '(ED, UN, CD)', 'Option<CD>', 'Vec<CD>']
    for i, t in enumerate(std):
        f.add(Struct(f'P{i}', 'Named', [Field('f', t)]))
        f.add(Struct(f'O{i}', 'Named', [Field('f', t, ['optional'], opt=True)]))
        f.add(Struct(f'A{i}', 'Tuple', [Field(None, t), Field(None, t)]))
        f.add(Struct(f'PP{i}', 'Named', [Field('inner', f'O{i}', ['optional'], opt=True), Field('other', f'P{i}')]))
    # Generics.
    B = 'T: Encode + Decode'
    f.add(Struct('G', 'Named', [Field('b', 'T'), Field('a', 'Vec<T>', ['optional'], opt=True)], generics='<T>', ty_args='<T>', bounds='T: Subj + Encode + Decode + Default'))
    f.add(Struct('GW', 'Tuple', [Field(None, 'T')], ['transparent'], generics='<T>', ty_args='<T>', bounds='T: Subj + Encode + Decode + Default'))
    f.add(Struct('GI', 'Tuple', [Field(None, 'T'), Field(None, 'u8')], generics='<T: Subj + Encode + Decode + Default>', ty_args='<T>'))
    for t in ['G<u8>', 'G<NS>', 'G<Option<String>>', 'GW<u64>', 'GW<NS>', 'GW<G<EN>>', 'G<GW<i8>>', 'GI<String>', 'GI<G<u16>>', 'Vec<G<u16>>']:
        f.reg(t)
    GB = 'Subj + Encode + Decode + Default'
    f.add(Struct('G2', 'Named', [Field('y', 'A'), Field('x', 'BTreeMap<u8, B>', ['optional'], opt=True)], generics='<A, B = u8>', impl_generics='<A, B>', ty_args='<A, B>', bounds=f'A: {GB}, B: {GB}'))
    f.add(Struct('GA', 'Named', [Field('item', 'Option<T::Item>'), Field('rest', 'Vec<T::Item>', ['rename = 1'], key=1)], generics='<T: Iterator>', ty_args='<T>', bounds=f'T::Item: {GB}'))
    f.add(Struct('GP', 'Named', [Field('a', 'u8'), Field('mark', 'std::marker::PhantomData<T>', ['skip'], skip=True)], generics='<T>', ty_args='<T>'))
    f.add(Struct('GPT', 'Tuple', [Field(None, 'std::marker::PhantomData<T>', ['skip'], skip=True), Field(None, 'String')], generics='<T>', ty_args='<T>'))
    CN = '<const N: usize>'
    f.add(Struct('CG', 'Named', [Field('w', '[u16; N]'), Field('b', '[u8; N]', ['optional'], opt=True)], generics=CN, ty_args='<N>'))
    f.add(Struct('CT', 'Tuple', [Field(None, '[u8; N]'), Field(None, '[[bool; N]; K]')], generics='<const N: usize, const K: usize>', ty_args='<N, K>'))
    f.add(Struct('CW', 'Tuple', [Field(None, '[T; N]')], ['transparent', 'no_default'], default='none', generics='<T, const N: usize>', ty_args='<T, N>', bounds=f'T: {GB}'), default_impl=False)
    for t in ['G2<String, NS>', 'G2<G2<u8, u8>>', 'G2<CG<1>, CW<u8, 3>>'.replace('CW<u8, 3>', 'CG<0>'), 'GA<std::vec::IntoIter<u8>>', 'GA<std::vec::IntoIter<EN>>', 'GP<std::fs::File>', 'GPT<u8>', 'CG<0>', 'CG<1>', 'CG<3>', 'CG<24>', 'CT<0, 0>', 'CT<2, 1>', 'CW<u8, 2>', 'CW<NS, 2>', 'CW<CG<1>, 1>']:
        f.reg(t)
    # Borrowed content: encoded only.
    L = dict(generics="<'a>", impl_generics='', ty_args="<'static>")
    refs = lambda: [Field('s', "&'a str"), Field('n', "&'a u128", ['optional'], opt=True), Field('o', "Option<&'a str>", ['rename = 3', 'optional'], key=3, opt=True), Field('m', "BTreeMap<&'a str, &'a u128>"), Field('v', "Vec<&'a str>", ['optional', 'skip_serializing_if = "Vec::is_empty"'], opt=True, skip_if='|d| d.seq().is_empty()')]
    f.add(Struct('LN', 'Named', refs(), **L), ED, default_impl=False)
    f.add(Struct('LA', 'Named', refs()[:4], ['as_array'], **L), ED, default_impl=False)
    f.add(Struct('LT', 'Tuple', refs()[:4], **L), ED, default_impl=False)
    f.add(Struct('LS', 'Tuple', [Field(None, "&'a str")], ['transparent'], **L), ED, default_impl=False)
    f.add(Struct('LI', 'Named', [Field('deep', "LN<'a>"), Field('flat', "LS<'a>", ['optional'], opt=True), Field('both', "(LT<'a>, &'a u128)")], **L), ED, default_impl=False)
    for t in ['LN', 'LA', 'LT', 'LS', 'LI']:
        f.reg(t + "<'static>", 'enc')
    # Inside themselves.
    def rec(t, ty, name='a', attrs=(), **kw):
        d = {f'Vec<{t}>': 'Ty::Seq(Arc::new(Ty::Rec({t}::ty)))', f'BTreeMap<u8, {t}>': 'Ty::Map(Arc::new(u8::ty()), Arc::new(Ty::Rec({t}::ty)))',
             f'Option<Vec<{t}>>': 'Ty::Opt(Arc::new(Ty::Seq(Arc::new(Ty::Rec({t}::ty)))))', f'Vec<Vec<{t}>>': 'Ty::Seq(Arc::new(Ty::Seq(Arc::new(Ty::Rec({t}::ty)))))'}
        return Field(name, ty.format(t=t), attrs, rec=d[ty.format(t=t)].format(t=t), **kw)
    f.add(Struct('R1', 'Named', [Field('b', 'u8'), rec('R1', 'Vec<{t}>')]))
    f.add(Struct('R2', 'Named', [rec('R2', 'BTreeMap<u8, {t}>', attrs=['optional'], opt=True), Field('c', 'String', ['optional'], opt=True)]))
    f.add(Struct('R3', 'Named', [rec('R3', 'Option<Vec<{t}>>')], ['allow_unknown']))
    f.add(Struct('R4', 'Tuple', [Field(None, 'u8'), rec('R4', 'Vec<{t}>')]))
    f.add(Struct('R5', 'Named', [rec('R5', 'Vec<Vec<{t}>>'), Field('c', 'bool')], ['as_array']))
    f.add(Struct('R6', 'Tuple', [rec('R6', 'Vec<{t}>')], ['transparent']))
    f.add(Struct('R7', 'Tuple', [rec('R7', 'BTreeMap<u8, {t}>')], ['transparent', 'no_default'], default='none'), default_impl=False)
    f.add(Struct('R8', 'Named', [rec('R9', 'Vec<{t}>')]))
    f.add(Struct('R9', 'Named', [rec('R8', 'BTreeMap<u8, {t}>', 'zz', ['optional', 'rename = 7'], opt=True, key=7), Field('b', 'Option<u8>')]))
    f.add(Struct('R10', 'Named', [rec('R10', 'Vec<{t}>', 'k', ['optional', 'skip_serializing_if = "Vec::is_empty"'], opt=True, skip_if='|d| d.seq().is_empty()'), Field('u', 'u8')]))
    f.add(Enum('ER', [Variant('Nil'), Variant('Leaf', 'Tuple', [Field(None, 'u8')]), Variant('Many', 'Tuple', [rec('ER', 'Vec<{t}>')]), Variant('Named', 'Named', [rec('ER', 'BTreeMap<u8, {t}>', 'm')])], rust_default='D::Var(0, vec![])'))
    f.add(Struct('R11', 'Named', [Field('e', 'ER'), Field('o', 'Option<ER>', ['optional'], opt=True), Field('r', 'Vec<R1>')]))
    # Deep composition.
    f.add(Struct('Deep1', 'Named', [Field('s', 'Vec<Order1>'), Field('m', 'BTreeMap<u8, S3_0_1>', ['optional'], opt=True), Field('o', 'Option<T_u8_OOpt>')]))
    f.add(Struct('Deep2', 'Tuple', [Field(None, 'Deep1'), Field(None, 'Vec<Deep1>')]))
    f.add(Struct('Rec', 'Named', [Field('n', 'u8'), Field('next', 'Vec<Deep2>', ['optional', 'skip_serializing_if = "Vec::is_empty"'], opt=True, skip_if='|d| d.seq().is_empty()')]))
    f.write(os.path.join(root, 'mc/structs/src/types.rs'))
    print(len(f.regs), 'struct types')


# Variant kinds: name -> function of (name, position).
def vkinds():
    F = Field
    def v(shape='Unit', fields=lambda i: [], attrs=lambda i: [], key=lambda i: None, discr=lambda i: None):
        return lambda n, i: Variant(n, shape, fields(i), attrs(i), key(i), discr(i))
    rt = lambda i: ('n0', '')[i % 2] if i < 2 else f'n{i}'
    rn = lambda i: (7, 300, 24, 70000, 1)[i]
    named = lambda i: [F('bb', 'u8'), F('a', 'Option<String>')]
    k = {
        'Unit': v(),
        'UText': v(attrs=lambda i: [f'rename = {rs(rt(i))}'], key=rt),
        'UNum': v(attrs=lambda i: [f'rename = {rn(i)}'], key=rn),
        'UDisc': v(discr=lambda i: (str(i + 1), i + 1)),
        'UExpr': v(discr=lambda i: ('-(1 << 8)', -256) if i == 0 else (f'{40 + i} * 100 + 23', (40 + i) * 100 + 23)),
        'UStruct': v(attrs=lambda i: ['as_struct']),
        'NU8': v('Tuple', lambda i: [F(None, 'u8')]),
        'NStr': v('Tuple', lambda i: [F(None, 'String')], lambda i: [f'rename = {rn(i)}'], rn),
        'NOpt': v('Tuple', lambda i: [F(None, 'Option<u8>')]),
        'NNS': v('Tuple', lambda i: [F(None, 'NS')]),
        'NVec': v('Tuple', lambda i: [F(None, 'Vec<u8>')], lambda i: [f'rename = {rs("r" + rt(i))}'], lambda i: "r" + rt(i)),
        'Tup': v('Tuple', lambda i: [F(None, 'u8'), F(None, 'String')]),
        'TSkip': v('Tuple', lambda i: [F(None, 'u8'), F(None, 'u32', ['skip'], skip=True), F(None, 'Option<u8>')]),
        'T0': v('Tuple'),
        'Named': v('Named', named),
        'NMix': v('Named', lambda i: [F('x', 'u64', ['optional'], opt=True), F('y', 'u8', ['skip'], skip=True), F('z', 'bool', ['rename = 5'], key=5)]),
        'N0': v('Named'),
        'NArr': v('Named', named, lambda i: ['as_array']),
        'NUnk': v('Named', lambda i: [F('m', 'u8'), F('l', 'i8', ['optional'], opt=True)], lambda i: ['allow_unknown']),
        'SUnit': v(attrs=lambda i: ['skip']),
        'SNew': v('Tuple', lambda i: [F(None, 'u8')], lambda i: ['skip']),
        'EmA': v('Tuple', lambda i: [F(None, 'EA')], lambda i: ['embed']),
        'EmB': v('Tuple', lambda i: [F(None, 'EB')], lambda i: ['embed']),
        'NEN': v('Tuple', lambda i: [F(None, 'EN')]),
    }
    more = {
        'EmS': v('Tuple', lambda i: [F(None, 'NM')], lambda i: ['embed']),
        'EmX': v('Tuple', lambda i: [F(None, 'EX')], lambda i: ['embed']),
        'SNamed': v('Named', named, lambda i: ['skip']),
        'SEmA': v('Tuple', lambda i: [F(None, 'EA')], lambda i: ['embed', 'skip']),
        'SEmB': v('Tuple', lambda i: [F(None, 'EB')], lambda i: ['skip', 'embed']),
        'SDisc': v(attrs=lambda i: ['skip'], discr=lambda i: (str(i + 5), i + 5)),
        'SRen': v(attrs=lambda i: ['skip', f'rename = {rn(i)}'], key=rn),
        'SStruct': v(attrs=lambda i: ['skip', 'as_struct']),
        'STup': v('Tuple', lambda i: [F(None, 'u8'), F(None, 'u8')], lambda i: ['skip']),
        'SArr': v('Named', named, lambda i: ['as_array', 'skip']),
        'SNone': v('Tuple', lambda i: [F(None, 'Option<u8>')], lambda i: ['skip']),
        'NCod': v('Named', lambda i: [F('c', 'u16', ['serialize_with = "ser_num"', 'deserialize_with = "de_num"'], codec='num'), F('b', 'u16', ['optional', 'serialize_with = "ser_pos"', 'deserialize_with = "de_pos"'], opt=True, codec='pos'),
            F('a', 'Vec<u8>', ['optional', 'skip_serializing_if = "Vec::is_empty"'], opt=True, skip_if='|d| *d == D::Bytes(vec![])')]),
        'TCod': v('Tuple', lambda i: [F(None, 'u16', ['serialize_with = "ser_num"', 'deserialize_with = "de_num"'], codec='num'), F(None, 'u8')]),
        'TSk1': v('Tuple', lambda i: [F(None, 'u8', ['skip'], skip=True), F(None, 'u16')]),
        **{f'N{kn}': v('Tuple', lambda i, c=c: [c()]) for kn, c in CODED.items()},
        'NSkp': v('Tuple', lambda i: [F(None, 'u32', ['skip'], skip=True)]),
        'NSkN': v('Tuple', lambda i: [F(None, 'NS', ['skip'], skip=True)], lambda i: [f'rename = {rn(i)}'], rn),
        'EmC': v('Tuple', lambda i: [CODED['CWrap']()], lambda i: ['embed']),
        'EmD': v('Tuple', lambda i: [CODED['CUnder']()], lambda i: ['embed']),
        'NUnit': v('Tuple', lambda i: [F(None, '()')]),
        'NVal': v('Tuple', lambda i: [F(None, 'Value')]),
        'NUN': v('Tuple', lambda i: [F(None, 'UN')]),
        'NND': v('Tuple', lambda i: [F(None, 'ND')]),
        'NTW': v('Tuple', lambda i: [F(None, 'TW')]),
        'NMap': v('Tuple', lambda i: [F(None, 'BTreeMap<u8, String>')]),
        'NVecNS': v('Tuple', lambda i: [F(None, 'Vec<NS>')]),
        'NTup': v('Tuple', lambda i: [F(None, '(u8, bool)')]),
        'NBig': v('Tuple', lambda i: [F(None, 'u128')]),
        'UUnkS': v(attrs=lambda i: ['as_struct', 'allow_unknown']),
        'N0Unk': v('Named', attrs=lambda i: ['allow_unknown']),
        'NArr0': v('Named', attrs=lambda i: ['as_array']),
        'TUnk': v('Tuple', lambda i: [F(None, 'u8'), F(None, 'u8')], lambda i: ['allow_unknown']),
        'RStruct': v(attrs=lambda i: ['as_struct', f'rename = {rn(i)}'], key=rn),
        'URText': v('Named', named, lambda i: ['rename = "renamed_variant_of_24_bytes_or_more"'], lambda i: 'renamed_variant_of_24_bytes_or_more'),
        'NRen': v('Named', lambda i: [F('b', 'u8', ['rename = "a"'], key='a'), F('a', 'String', ['rename = "b"'], key='b'), F('c', 'bool', ['rename = 1'], key=1)]),
    }
    for kn, mk in fkinds()[0].items():
        more[f'F{kn}'] = v('Named', lambda i, mk=mk: [mk('g', 0), F('e', 'u8')])
        if not skipped_if(kn):
            more[f'Q{kn}'] = v('Tuple', lambda i, mk=mk: [mk(None, 0), F(None, 'u8')])
    return k, more


def tkinds():
    F = Field
    def v(shape='Unit', fields=lambda i: [], attrs=lambda i: [], key=lambda i: None):
        return lambda n, i: Variant(n, shape, fields(i), attrs(i), key(i))
    rt = lambda i: ('n0', '', 'n2')[i]
    rn = lambda i: (7, 300, 24)[i]
    named = lambda i: [F('bb', 'u8'), F('a', 'Option<String>', ['optional'], opt=True)]
    k = {
        'Unit': v(),
        'UText': v(attrs=lambda i: [f'rename = {rs(rt(i))}'], key=rt),
        'UNum': v(attrs=lambda i: [f'rename = {rn(i)}'], key=rn),
        'UStruct': v(attrs=lambda i: ['as_struct']),
        'UUnk': v(attrs=lambda i: ['allow_unknown']),
        'Named': v('Named', named),
        'NNum': v('Named', lambda i: [F('w', 'u8'), F('z', 'u16', ['rename = 30'], key=30)], lambda i: [f'rename = {rn(i)}'], rn),
        'NMix': v('Named', lambda i: [F('x', 'u64', ['optional'], opt=True), F('y', 'u8', ['skip'], skip=True), F('z', 'bool', ['rename = 5'], key=5)]),
        'N0': v('Named'),
        'NUnk': v('Named', lambda i: [F('m', 'u8'), F('l', 'i8', ['optional'], opt=True)], lambda i: ['allow_unknown']),
        'NNM': v('Tuple', lambda i: [F(None, 'NM')]),
        'NNS': v('Tuple', lambda i: [F(None, 'NS')], lambda i: [f'rename = {rs(rt(i))}'], rt),
        'NMap': v('Tuple', lambda i: [F(None, 'BTreeMap<String, u8>')], lambda i: [f'rename = {rn(i)}'], rn),
        'NTag': v('Tuple', lambda i: [F(None, 'TE')]),
        'NCod': v('Tuple', lambda i: [CODED['CUnder']()]),
        'SUnit': v(attrs=lambda i: ['skip']),
        'SNamed': v('Named', named, lambda i: ['skip']),
        'SStruct': v(attrs=lambda i: ['skip', 'as_struct']),
        'SMap': v('Tuple', lambda i: [F(None, 'BTreeMap<String, u8>')], lambda i: ['skip', f'rename = {rn(i)}'], rn),
    }
    return k


def has(v, *attrs):
    return any(a in v.attrs for a in attrs)


def enums():
    f = File()
    support(f)
    f.add(Enum('EA', [Variant('Ea'), Variant('Eb', 'Tuple', [Field(None, 'u8')]), Variant('Ec', attrs=['rename = 9'], key=9)], rust_default='D::Var(0, vec![])'))
    f.add(Enum('EB', [Variant('Ta', 'Named', [Field('s', 'u8'), Field('t', 'bool')]), Variant('Tb')], ['tag = "kind"'], tag='kind', rust_default='D::Var(1, vec![])'))
    # Embeds another one itself.
    f.add(Enum('EX', [Variant('Xa', 'Tuple', [Field(None, 'String')]), Variant('In', 'Tuple', [Field(None, 'EA')], ['embed']), Variant('Xb')], rust_default='D::Var(2, vec![])'))
    f.add(Enum('TE', [Variant('I', 'Named', [Field('deep', 'u8')]), Variant('J')], ['tag = "inner"'], tag='inner', rust_default='D::Var(1, vec![])'))
    K, MORE = vkinds()
    ALL = {**K, **MORE}

    def mk(name, kinds, attrs=(), **kw):
        vs = [ALL[k](f'V{chr(97 + i)}', i) for i, k in enumerate(kinds)]
        repr_ = None
        if any(x.discr for x in vs):
            repr_ = 'i32' if any(x.discr and x.discr[1] < 0 for x in vs) else 'u16'
        em = [k for k in kinds if k.startswith('Em')]
        over = len(set(em)) != len(em) or ('EmA' in em and 'EmX' in em)
        f.add(Enum(name, vs, attrs, overlap=over, repr=repr_, **kw))

    for a in ALL:
        mk(f'E_{a}', [a])
    # Two explicit discriminants must differ; implicit ones of later variants do not matter.
    for a in K:
        for b in K:
            mk(f'E_{a}_{b}', [a, b])
    for i, a in enumerate(MORE):
        for j in (0, 1):
            b = list(K)[(i * 5 + j * 11) % len(K)]
            mk(f'E_{a}_{b}', [a, b])
            mk(f'E_{b}_{a}', [b, a])
    trip = [('Unit', 'NU8', 'EmA'), ('EmA', 'EmB', 'Unit'), ('UDisc', 'Unit', 'UExpr'), ('UStruct', 'Named', 'Tup'), ('SUnit', 'Unit', 'SNew'), ('EmB', 'EmS', 'NNS'), ('EmX', 'EmB', 'NStr'), ('UNum', 'NStr', 'UText'), ('EmS', 'EmA', 'NMix'),
            ('EmA', 'SNew', 'UStruct'), ('Unit', 'Unit', 'Unit'), ('EmB', 'EmX', 'EmS'), ('T0', 'N0', 'UStruct'), ('NArr', 'NUnk', 'NOpt')]
    for i, t in enumerate(trip):
        for j, p in enumerate([(0, 1, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]):
            mk(f'E3_{i}_{j}', [t[x] for x in p])
    # The parent has variants of the embedded enum's forms.
    F = Field
    emb = lambda t='EA': Variant('Em', 'Tuple', [F(None, t)], ['embed'])
    OV = [
        ('Eb', [Variant('Eb', 'Tuple', [F(None, 'String')]), emb()]),
        ('Eb2', [emb(), Variant('Eb', 'Tuple', [F(None, 'String')])]),
        ('EaU', [emb(), Variant('Ea')]),
        ('EaN', [emb(), Variant('Ea', 'Tuple', [F(None, 'u8')])]),
        ('EbU', [emb(), Variant('Eb')]),
        ('Ec', [emb(), Variant('Nine', attrs=['rename = 9'], key=9), Variant('Other', 'Tuple', [F(None, 'u8')])]),
        ('EcD', [emb(), Variant('Nine', discr=('9', 9))]),
        ('Ren', [Variant('X', 'Named', [F('a', 'u8')], ['rename = "Eb"'], 'Eb'), emb(), Variant('Y', attrs=['rename = "Ea"', 'as_struct'], key='Ea')]),
        ('Tag', [Variant('Kind', 'Tuple', [F(None, 'String')], ['rename = "kind"'], 'kind'), emb('EB')]),
        ('St', [emb('NM'), Variant('P', 'Tuple', [F(None, 'u8')], ['rename = "p"'], 'p')]),
        ('StE', [emb('NS'), Variant('P', 'Tuple', [F(None, 'String')], ['rename = "p"'], 'p'), Variant('U')]),
        ('Two', [emb('EA'), Variant('Em2', 'Tuple', [F(None, 'EX')], ['embed'])]),
        ('Num', [emb('u8'), Variant('U'), Variant('D', discr=('5', 5))]),
        ('Str', [emb('String'), Variant('U'), Variant('N', 'Tuple', [F(None, 'u8')])]),
        ('Opt', [Variant('U'), emb('Option<u8>'), Variant('N', 'Tuple', [F(None, 'u8')])]),
        ('Vec', [emb('Vec<String>'), Variant('T', 'Tuple', [F(None, 'u8'), F(None, 'u8')])]),
        ('Map', [emb('BTreeMap<String, u8>'), Variant('T', 'Tuple', [F(None, 'u8')])]),
    ]
    for n, vs in OV:
        over = n not in ('Vec',)
        f.add(Enum(f'Over{n}', vs, overlap=over, repr='u8' if any(v.discr for v in vs) else None))
    # Numbers and text alike.
    f.add(Enum('Alike', [Variant('A', attrs=['rename = "1"'], key='1'), Variant('B', attrs=['rename = 1'], key=1), Variant('C', discr=('-9', -9)), Variant('D', 'Tuple', [F(None, 'u8')], ['rename = "2"'], '2'), Variant('E2', 'Tuple', [F(None, 'String')], ['rename = 2'], 2)], repr='i8'))
    f.add(Enum('SwapN', [Variant('A', attrs=['rename = "B"'], key='B'), Variant('B', attrs=['rename = "A"'], key='A')]))
    f.add(Enum('SwapT', [Variant('A', 'Tuple', [F(None, 'u8')], ['rename = "B"'], 'B'), Variant('B', 'Tuple', [F(None, 'u8')], ['rename = "A"'], 'A'), Variant('C', 'Named', [F('x', 'u8')], ['rename = "D"'], 'D'), Variant('D', attrs=['rename = "C"'], key='C')]))
    f.add(Enum('SameShape', [Variant('A', 'Named', [F('x', 'u8')]), Variant('B', 'Named', [F('x', 'u8')]), Variant('C', 'Tuple', [F(None, 'u8'), F(None, 'u8')]), Variant('D', 'Tuple', [F(None, 'u8'), F(None, 'u8')])]))
    # A unit and a content variant under one name.
    f.add(Enum('UnitAndContent', [Variant('A'), Variant('B', 'Tuple', [F(None, 'u8')], ['rename = "A"'], 'A')]))
    f.add(Enum('Discr', [Variant(f'V{i}', discr=(str(x), x)) for i, x in enumerate([0, 1, 23, 24, 255, 256, 65535, 65536, 2147483647, -1, -24, -25, -256, -257, -2147483648])], repr='i32'))
    f.add(Enum('DiscrBig', [Variant(f'V{i}', discr=(f'{x}i64', x)) for i, x in enumerate([0, 4294967296, 9223372036854775807, -9223372036854775808, -1])], repr='i64'))
    f.add(Enum('DiscrU', [Variant('A', discr=('u64::MAX', 2**64 - 1)), Variant('B', discr=('1u64 << 63', 2**63)), Variant('C', discr=('0', 0))], repr='u64'))
    f.add(Enum('DiscrAndName', [Variant('A', attrs=['rename = "x"'], key='x', discr=('3', 3)), Variant('B', attrs=['rename = 4'], key=4), Variant('C')]))
    f.add(Enum('ContentDiscr', [Variant('A', 'Tuple', [F(None, 'u8')], discr=('3', 3)), Variant('B', 'Named', [F('x', 'u8')], discr=('9', 9)), Variant('C', attrs=['as_struct'], discr=('11', 11)), Variant('D', discr=('12', 12))], repr='u8'))
    f.add(Enum('Many', [Variant(f'V{i}', ['Unit', 'Tuple', 'Named', 'Tuple'][i % 4], [[], [F(None, 'i64')], [F('q', 'i64'), F('b', 'u8')], [F(None, 'u8'), F(None, 'String')]][i % 4]) for i in range(40)]))
    f.add(Enum('ManyU', [Variant(f'V{i}', attrs=[f'rename = {i * 37 % 41}'], key=i * 37 % 41) for i in range(41)]))
    f.add(Enum('ManyN', [Variant(f'V{i}', 'Tuple', [F(None, 'u16')]) for i in range(70)]))
    f.add(Enum('Many300', [Variant(f'V{i}') for i in range(300)]))
    f.add(Enum('Many300D', [Variant(f'V{i}', discr=(str(i), i)) for i in range(300)], repr='u16'))
    f.add(Enum('Many70T', [Variant(f'V{i}', 'Named', [F('a', 'u8')]) for i in range(70)], ['tag = "t"'], tag='t'))
    # Names that generated code might use itself.
    NAMES = ['fields', 'it', 'value', 'v', 'key', 'map', 'items', 'inner', 'array', 'tag', 'result', 'index', 'decoded', 'item', 'x', 'a', 'f', 'field', 'other', 'name', 'values', 'iter', '__cbor', '__a0', '__a1', 'vec', 'none', 'default', 'std', 'core', 'oasis_cbor', 'u8']
    for n, tg in [('Names', None), ('NamesT', 'tag'), ('NamesU', None)]:
        vs = [Variant('A', 'Named', [F(x, 'u8') for x in NAMES if x != tg]), Variant('B', 'Named', [F(x, 'u8', ['optional'], opt=True) for x in NAMES[::-1] if x != tg], ['allow_unknown']),
            Variant('C', 'Named', [F(x, 'u8', ['skip'] if i % 3 == 0 else [], skip=i % 3 == 0) for i, x in enumerate(NAMES) if x != tg])]
        if not tg:
            vs.append(Variant('D', 'Named', [F(x, 'Option<u8>') for x in NAMES], ['as_array']))
        e = Enum(n, vs, ['tag = "tag"'] if tg else ['untagged'] if n == 'NamesU' else [], tag=tg)
        if n == 'NamesU':
            f.add(e, ED)
        else:
            f.add(e)
    W = ['Ok', 'Err', 'Some', 'None', 'Option', 'Result', 'Value', 'Default', 'Error', 'Encode', 'Decode', 'Vec', 'String', 'Map', 'Array', 'Simple', 'NullValue', 'UnknownField', '_A', 'a']
    f.add(Enum('Words', [Variant(n, ['Unit', 'Tuple', 'Named'][i % 3], [[], [F(None, 'u8')], [F('a', 'u8')]][i % 3]) for i, n in enumerate(W)]))
    f.add(Enum('Words2', [Variant(n, ['Unit', 'Tuple', 'Named'][(i + 1) % 3], [[], [F(None, 'u8')], [F('a', 'u8')]][(i + 1) % 3]) for i, n in enumerate(W)]))
    f.add(Enum('Words3', [Variant(n, ['Unit', 'Tuple', 'Named'][(i + 2) % 3], [[], [F(None, 'u8')], [F('a', 'u8')]][(i + 2) % 3]) for i, n in enumerate(W)]))
    # Defaults.
    f.add(Enum('WD0', [Variant('A'), Variant('B', 'Tuple', [F(None, 'u8')])], ['with_default'], default='D::Var(0, vec![])'))
    f.add(Enum('WD1', [Variant('A'), Variant('B', 'Tuple', [F(None, 'u8')])], ['with_default'], default='D::Var(1, vec![D::Int(77)])'))
    f.add(Enum('WD2', [Variant('A', 'Named', [F('x', 'u8'), F('y', 'NS')]), Variant('B')], ['with_default', 'tag = "t"'], tag='t', default='D::Var(1, vec![])'))
    f.add(Enum('WD3', [Variant('A', attrs=['skip']), Variant('B')], ['with_default'], default='D::Var(0, vec![])'))
    f.add(Enum('WD4', [emb('WD1'), Variant('B', 'Tuple', [F(None, 'u8')], ['rename = 0'], 0)], ['with_default'], overlap=False, default='D::Var(1, vec![D::Int(1)])'))
    f.add(Struct('WDS', 'Named', [F('a', 'WD1'), F('b', 'WD3'), F('c', 'WD2', ['optional'], opt=True), F('d', 'Option<WD0>'), F('e', 'EN')]))
    # Internally tagged.
    TK = tkinds()
    TAGS = {'v': 'v', 'Num': 3, 'Emp': '', 'Long': 'the_tag_of_internally_tagged', 'AB': 'ab'}
    def mt(name, kinds, tag, missing=None, attrs=(), **kw):
        vs = [TK[k](f'V{chr(97 + i)}', i) for i, k in enumerate(kinds)]
        if missing is not None:
            vs[missing].attrs.append('missing')
        ts = str(tag) if isinstance(tag, int) else rs(tag)
        f.add(Enum(name, vs, [f'tag = {ts}', *attrs], tag=tag, **kw))
    tl = list(TAGS)
    for a in TK:
        mt(f'T_{a}', [a], TAGS['v'])
        for i, b in enumerate(TK):
            mt(f'T_{a}_{b}', [a, b], TAGS[tl[(len(a) * 3 + i) % 5]])
            if not b.startswith('S') or (i + len(a)) % 4 == 0:
                mt(f'TM_{a}_{b}', [a, b], TAGS[tl[(len(b) * 3 + i + 1) % 5]], missing=1)
    for i, t in enumerate([('Unit', 'NNM', 'NUnk'), ('NTag', 'NMap', 'NMix'), ('SNamed', 'Named', 'UNum'), ('N0', 'UStruct', 'Unit'), ('NNum', 'NNum', 'NNum'), ('NNS', 'NNS', 'NNS'), ('Named', 'Named', 'Named')]):
        for tg in TAGS:
            mt(f'T3_{i}_{tg}', t, TAGS[tg])
            mt(f'T3M_{i}_{tg}', t, TAGS[tg], missing=(i + len(tg)) % 3)
    f.add(Struct('HoldT', 'Named', [F('t', 'T_Named'), F('u', 'Vec<TM_Unit_Named>'), F('o', 'Option<T_NNM>', ['optional'], opt=True)], ['no_default'], default='none'), default_impl=False)
    # Untagged: encoding only.
    u = lambda n, *k: mk(f'Un_{n}', k, ['untagged'])
    for a in K:
        if a not in ('SUnit', 'SNew'):
            u(a, a)
            u(f'{a}_2', 'NU8', a)
    u('mix', 'Unit', 'NNS', 'Tup', 'Named')
    # In other types.
    f.add(Enum('Outer', [Variant('A', 'Tuple', [F(None, 'Vec<E_Unit_NU8>')]), Variant('B', 'Named', [F('m', 'BTreeMap<String, EN>'), F('t', 'T_Named')]), Variant('C', 'Tuple', [F(None, 'Option<EA>')]), Variant('D', 'Tuple', [F(None, '(EA, EB)')])]))
    f.add(Struct('Hold', 'Named', [F('b', 'Outer'), F('a', 'Option<EB>'), F('c', 'Vec<EX>', ['optional'], opt=True)], ['no_default', 'allow_unknown'], default='none'), default_impl=False)
    for t in ['Vec<EA>', 'Option<EB>', 'BTreeMap<String, EX>', '(EA, EN)', 'Vec<Option<EA>>', 'Vec<E3_5_0>', 'Vec<OverOpt>']:
        f.reg(t)
    # Generics.
    f.add(Enum('GE', [Variant('A', 'Tuple', [F(None, 'T')]), Variant('B', 'Named', [F('t', 'T'), F('l', 'Vec<T>', ['optional'], opt=True)]), Variant('C')], generics='<T>', ty_args='<T>', bounds='T: Encode + Decode'))
    f.add(Enum('GT', [Variant('A', 'Named', [F('t', 'T')]), Variant('C')], ['tag = "g"'], tag='g', generics='<T>', ty_args='<T>', bounds='T: Encode + Decode'))
    GB = 'Subj + Encode + Decode + Default'
    f.add(Enum('GN', [Variant('Z'), Variant('B', 'Tuple', [F(None, '[u8; N]')]), Variant('W', 'Named', [F('w', '[u16; N]'), F('o', '[u8; N]', ['optional'], opt=True)]), Variant('P', 'Tuple', [F(None, 'u8'), F(None, '[bool; N]')], ['rename = 3'], 3)],
        generics='<const N: usize>', ty_args='<N>', rust_default='D::Var(0, vec![])'))
    f.add(Enum('GD', [Variant('L', 'Tuple', [F(None, 'A')]), Variant('R', 'Named', [F('r', 'B'), F('i', 'Vec<A>', ['optional'], opt=True)]), Variant('S', attrs=['skip'])], generics='<A, B = u8>', impl_generics='<A, B>', ty_args='<A, B>', bounds=f'A: {GB}, B: {GB}'))
    f.add(Enum('GM', [Variant('A', 'Named', [F('a', 'u8'), F('p', 'std::marker::PhantomData<T>', ['skip'], skip=True)]), Variant('B', 'Tuple', [F(None, 'BTreeMap<String, u8>')]), Variant('C', 'Named', [F('n', '[u16; N]')], ['missing'])], ['tag = 1'], tag=1, generics='<T, const N: usize>', ty_args='<T, N>'))
    for t in ['GN<0>', 'GN<2>', 'GN<24>', 'GD<String, GN<1>>', 'GD<EN>', 'GM<std::fs::File, 0>', 'GM<u8, 2>']:
        f.reg(t)
    L = dict(generics="<'a>", impl_generics='', ty_args="<'static>")
    f.src.append(Enum('LE', [Variant('U'), Variant('N', 'Tuple', [F(None, "&'a str")]), Variant('T', 'Tuple', [F(None, "&'a u128"), F(None, "Option<&'a str>")]), Variant('S', 'Named', [F('s', "Vec<&'a str>"), F('n', "&'a u128", ['optional'], opt=True)])], **L).emit(ED))
    f.src.append(Enum('LG', [Variant('A', 'Named', [F('s', "&'a str"), F('n', "&'a u128", ['optional'], opt=True)]), Variant('B', 'Tuple', [F(None, "BTreeMap<&'a str, LE<'a>>")])], ['tag = "k"'], tag='k', **L).emit(ED))
    f.src.append(Enum('LU', [Variant('A', 'Tuple', [F(None, "&'a str")]), Variant('B', 'Tuple', [F(None, "&'a u128"), F(None, "LE<'a>")])], ['untagged'], **L).emit(ED))
    for t in ['LE', 'LG', 'LU']:
        f.reg(t + "<'static>", 'enc')
    # Inside themselves.
    D = {'Vec<{t}>': 'Ty::Seq(Arc::new(Ty::Rec({t}::ty)))', 'BTreeMap<u8, {t}>': 'Ty::Map(Arc::new(u8::ty()), Arc::new(Ty::Rec({t}::ty)))', 'Option<Vec<{t}>>': 'Ty::Opt(Arc::new(Ty::Seq(Arc::new(Ty::Rec({t}::ty)))))'}
    def rec(t, ty, name=None, attrs=(), **kw):
        return F(name, ty.format(t=t), attrs, rec=D[ty].format(t=t), **kw)
    zero = dict(rust_default='D::Var(0, vec![])')
    f.add(Enum('ER1', [Variant('Nil'), Variant('Leaf', 'Tuple', [F(None, 'u8')]), Variant('Kids', 'Tuple', [rec('ER1', 'Vec<{t}>')])], **zero))
    f.add(Enum('ER2', [Variant('Nil'), Variant('Map', 'Named', [rec('ER2', 'BTreeMap<u8, {t}>', 'm', ['optional'], opt=True), F('x', 'u8')]), Variant('Two', 'Tuple', [rec('ER2', 'Vec<{t}>'), rec('ER2', 'Vec<{t}>')], ['rename = 2'], 2)], **zero))
    f.add(Enum('ER3', [Variant('Nil'), Variant('Leaf', 'Named', [F('x', 'u8')]), Variant('Node', 'Named', [rec('ER3', 'Vec<{t}>', 'kids'), rec('ER3', 'Option<Vec<{t}>>', 'more', ['optional'], opt=True)])], ['tag = "kind"'], tag='kind', **zero))
    f.add(Enum('ER4', [Variant('Nil'), Variant('Leaf', 'Tuple', [F(None, 'u8')]), Variant('Kids', 'Tuple', [rec('ER4', 'Vec<{t}>')])], ['untagged'], **zero))
    f.add(Enum('ER5', [Variant('Nil'), Variant('Arr', 'Named', [F('x', 'u8'), rec('ER5', 'Vec<{t}>', 'k')], ['as_array'])], ['with_default'], default='D::Var(0, vec![])'))
    f.add(Enum('ER6', [Variant('Z'), Variant('Own', 'Tuple', [rec('ER7', 'Vec<{t}>')]), Variant('In', 'Tuple', [F(None, 'EA')], ['embed'])], **zero))
    f.add(Enum('ER7', [Variant('Stop'), Variant('Back', 'Named', [rec('ER6', 'BTreeMap<u8, {t}>', 'b')])], **zero))
    for t in ['GE<u8>', 'GE<NS>', 'GE<EA>', 'GT<Option<u8>>', 'GT<GE<i16>>']:
        f.reg(t)
    f.write(os.path.join(root, 'mc/enums/src/types.rs'))
    print(len(f.regs), 'enum types')


if __name__ == "__main__":
    structs()
    enums()
