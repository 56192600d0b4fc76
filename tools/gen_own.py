#!/usr/bin/env python3
"""Writes mc/own/src/types.rs."""
import gen_derive
from gen_derive import *

gen_derive.CODECS = r'''
use mctyped::own::*;

pub fn ser_own<const K: u8>(x: &u8) -> Own<K> {
    Own(M::U(*x as u64))
}
pub fn de_own<const K: u8>(x: Own<K>) -> Result<u8, DecodeError> {
    match x.0 {
        M::U(n) if n < 60 => Ok(n as u8),
        _ => Err(DecodeError::UnexpectedIntegerSize),
    }
}
/// A number as a hand-written type.
pub fn coded<const K: u8>() -> Codec {
    Codec {
        wire: Ty::Own(K),
        enc: |d| match d {
            D::Int(n) => D::Val(M::U(*n as u64)),
            _ => panic!(),
        },
        dec: |d| match d {
            D::Val(M::U(n)) if *n < 60 => R::Ok(D::Int(*n as i128)),
            _ => R::Err(SIZE),
        },
    }
}
/// A hand-written type as a number.
pub fn ser_num<const K: u8>(x: &Own<K>) -> u8 {
    match &x.0 {
        M::U(n) => *n as u8,
        _ => 0,
    }
}
pub fn de_num<const K: u8>(x: u8) -> Result<Own<K>, DecodeError> {
    Ok(Own(M::U(x as u64)))
}
pub fn num() -> Codec {
    Codec {
        wire: Ty::Uint(8),
        enc: |d| match d {
            D::Val(M::U(n)) => D::Int(*n as u8 as i128),
            _ => D::Int(0),
        },
        dec: |d| match d {
            D::Int(n) => R::Ok(D::Val(M::U(*n as u64))),
            _ => panic!(),
        },
    }
}
pub fn seven(d: &D) -> bool {
    *d == D::Val(M::U(7))
}
'''
F = Field
f = File()


def own(k):
    return f'Own<{k}>'


def opt(n, t):
    return F(n, t, ['optional'], opt=True)


def kinds():
    k = {}
    for i in range(5):
        o = own(i)
        k[f'P{i}'] = lambda n, o=o: F(n, o)
        k[f'O{i}'] = lambda n, o=o: opt(n, o)
        k[f'L{i}'] = lambda n, o=o: F(n, f'Option<{o}>', ['optional'], opt=True)
    for i in range(4):
        o = own(i)
        k[f'I{i}'] = lambda n, o=o: F(n, o, ['optional', 'skip_serializing_if = "is_seven"'], opt=True, skip_if='seven')
        k[f'S{i}'] = lambda n, o=o: F(n, o, ['skip'], skip=True)
        k[f'W{i}'] = lambda n, i=i: F(n, 'u8', [f'serialize_with = "ser_own::<{i}>"', f'deserialize_with = "de_own::<{i}>"'], codec=f'coded::<{i}>')
        k[f'X{i}'] = lambda n, i=i: F(n, 'u8', ['optional', f'serialize_with = "ser_own::<{i}>"', f'deserialize_with = "de_own::<{i}>"'], opt=True, codec=f'coded::<{i}>')
        k[f'T{i}'] = lambda n, o=o: opt(n, f'({o}, u8)')
        k[f'U{i}'] = lambda n, o=o: opt(n, f'({o}, Own<1>)')
        k[f'V{i}'] = lambda n, o=o: opt(n, f'Vec<{o}>')
        k[f'A{i}'] = lambda n, o=o: opt(n, f'[{o}; 1]')
        k[f'R{i}'] = lambda n, i=i, o=o: F(n, o, [f'rename = {i + 300}'], key=i + 300)
    k['N1'] = lambda n: opt(n, 'u8')
    k['N2'] = lambda n: F(n, 'Own<2>', ['serialize_with = "ser_num"', 'deserialize_with = "de_num"'], codec='num')
    return k


K = kinds()
o4 = [own(i) for i in range(4)]
for i in range(5):
    o = own(i)
    for t in ['{o}', 'Option<{o}>', 'Vec<{o}>', '[{o}; 0]', '[{o}; 1]', '[{o}; 3]', '({o},)', '({o}, {o}, {o})', 'BTreeMap<String, {o}>', 'BTreeMap<{o}, u8>', 'BTreeMap<{o}, {o}>', 'HashMap<String, {o}>', 'HashMap<{o}, {o}>', 'BTreeSet<{o}>',
              'HashSet<{o}>', 'Option<Vec<{o}>>', 'Vec<Option<{o}>>', 'Option<Option<{o}>>', 'Vec<Vec<{o}>>', 'Option<({o}, u8)>', 'Vec<({o}, {o})>', '[[{o}; 1]; 2]', 'BTreeMap<u8, Vec<{o}>>', 'BTreeMap<({o}, u8), u8>', '(Option<{o}>, Vec<{o}>)',
              '((), {o})', '({o}, Value)', 'BTreeSet<Vec<{o}>>', 'HashSet<[{o}; 2]>', 'HashSet<(u8, {o})>', 'BTreeSet<Option<{o}>>', 'Vec<HashSet<{o}>>', 'HashMap<u8, BTreeMap<u8, {o}>>']:
        f.reg(t.format(o=o))
    for j in range(5):
        if i != j:
            f.reg(f'({o}, {own(j)})')
            f.reg(f'BTreeMap<{o}, {own(j)}>')
for n in range(4, 11):
    f.reg('(' + ', '.join(own((i * 3 + n) % 4) for i in range(n)) + ')')
names = list(K)
array = lambda a: a[0] != 'I'
for a in names:
    f.add(Struct(f'S_{a}', 'Named', [K[a]('a')]))
    f.add(Struct(f'N_{a}', 'Named', [K[a]('a'), F('b', 'u8')], ['no_default', 'allow_unknown'], default='none'), default_impl=False)
    if array(a):
        f.add(Struct(f'Y_{a}', 'Named', [K[a]('a'), F('b', 'u8')], ['as_array']))
        f.add(Struct(f'T_{a}', 'Tuple', [K[a](None)]))
        f.add(Struct(f'TT_{a}', 'Tuple', [F(None, 'u8'), K[a](None)]))
    if a[0] in 'WX' or a == 'N2':
        x = K[a](None)
        x.attrs, x.opt = [y for y in x.attrs if y != 'optional'], False
        f.add(Struct(f'TC_{a}', 'Tuple', [x], ['transparent']))
some = [x for x in names if x[0] in 'POISWXRT' and x[1] != '4']
for i, a in enumerate(some):
    for j, b in enumerate(some):
        if (i + j) % 2 == 0 or (a, b) in (('O1', 'O2'), ('O2', 'P1')):
            f.add(Struct(f'S_{a}_{b}', 'Named', [K[a]('bb'), K[b]('a') if b[0] != 'R' or a != b else F('a', 'Own<1>')]))
        if (i + j) % 4 == 0:
            f.add(Struct(f'L_{a}_{b}', 'Named', [K[a]('a'), K[b]('b') if b[0] != 'R' or a != b else F('b', 'Own<1>')], ['allow_unknown']))
        if (i + j) % 3 == 0 and array(a) and array(b):
            f.add(Struct(f'T_{a}_{b}', 'Tuple', [K[a](None), K[b](None)]))
            f.add(Struct(f'Y_{a}_{b}', 'Named', [K[a]('y'), K[b]('x')], ['as_array']))
f.add(Struct('Many', 'Named', [K[a](f'f{i * 7 % len(some)}') for i, a in enumerate(some)]))
f.add(Struct('ManyT', 'Tuple', [K[a](None) for a in some if array(a)]))
# Transparent.
for i, t in enumerate([own(k) for k in range(5)] + ['Option<Own<1>>', 'Vec<Own<2>>', 'WT1', 'WT2', '(Own<1>, Own<3>)', 'WT3']):
    f.add(Struct(f'WT{i}', 'Tuple', [F(None, t)], ['transparent']))
    f.add(Struct(f'WN{i}', 'Tuple', [F(None, t)], ['transparent', 'no_default'], default='none'), default_impl=False)
    f.add(Struct(f'SW{i}', 'Named', [F('a', f'WT{i}', ['optional'], opt=True), F('b', f'WT{i}'), F('c', f'WN{i}'), opt('d', f'Option<WN{i}>')]))
    f.add(Struct(f'AW{i}', 'Named', [F('a', f'WT{i}'), F('c', f'WN{i}')], ['as_array']))
    for t in [f'Vec<WT{i}>', f'Option<WN{i}>', f'BTreeMap<u8, WT{i}>', f'(WT{i}, WN{i})']:
        f.reg(t)
# In each other.
for i, t in enumerate(['S_O1', 'S_O2_P1', 'N_P3', 'T_P1', 'Y_O2', 'S_L1_'.rstrip('_'), 'S_X2', 'S_I0_I0']):
    f.add(Struct(f'H{i}', 'Named', [F('a', t), opt('b', f'Option<{t}>'), F('c', f'Vec<{t}>')], ['no_default'], default='none'), default_impl=False)
    f.add(Struct(f'HT{i}', 'Tuple', [F(None, t), F(None, f'BTreeMap<u8, {t}>')], ['no_default'], default='none'), default_impl=False)
    if t[0] == 'S':
        f.add(Struct(f'HO{i}', 'Named', [opt('a', t), F('b', t)]))
# Enums.
V = Variant
var = {}
for a in names:
    var[f'New{a}'] = lambda n, a=a: V(n, 'Tuple', [K[a](None)]) if a[0] in 'PLWX' or a == 'N2' else None
    var[f'Two{a}'] = lambda n, a=a: V(n, 'Tuple', [K[a](None), F(None, 'u8')]) if array(a) else None
    var[f'Rec{a}'] = lambda n, a=a: V(n, 'Named', [K[a]('x'), F('y', 'u8')])
    var[f'Arr{a}'] = lambda n, a=a: V(n, 'Named', [K[a]('x'), F('y', 'u8')], ['as_array']) if array(a) else None
    var[f'Unk{a}'] = lambda n, a=a: V(n, 'Named', [K[a]('x')], ['allow_unknown'])
zero = dict(rust_default='D::Var(0, vec![])')
for i, (n, g) in enumerate(var.items()):
    v = g('B')
    # The field of a newtype variant has no attributes but custom functions.
    if v is None:
        continue
    if n.startswith('New'):
        for x in v.fields:
            x.attrs, x.opt = [y for y in x.attrs if y != 'optional'], False
    f.add(Enum(f'E_{n}', [V('A'), v], **zero))
    if i % 3 == 0:
        f.add(Enum(f'U_{n}', [V('A'), v], ['untagged'], **zero))
        f.add(Enum(f'D_{n}', [V('A'), v], ['with_default'], default='D::Var(0, vec![])'))
    if n[:3] in ('Rec', 'Unk'):
        f.add(Enum(f'G_{n}', [V('A'), g('B')], ['tag = "t"'], tag='t', **zero))
        m = g('B')
        m.attrs = m.attrs + ['missing']
        f.add(Enum(f'M_{n}', [V('A'), m], ['tag = 1'], tag=1, **zero))
f.add(Enum('GN', [V('A', 'Tuple', [F(None, 'Own<4>')]), V('B', 'Tuple', [F(None, 'S_P1')]), V('C')], ['tag = "t"'], tag='t', rust_default='D::Var(2, vec![])'))
f.add(Enum('GM', [V('A'), V('B', 'Tuple', [F(None, 'Own<4>')], ['missing'])], ['tag = 7'], tag=7, **zero))
f.add(Enum('EK', [V('A'), V('B', 'Tuple', [F(None, 'Own<1>')], ['skip']), V('C', 'Tuple', [F(None, 'Own<1>')], ['rename = 3'], 3)], **zero))
for i in range(5):
    if i not in (1, 3):
        f.add(Enum(f'EM{i}', [V('A'), V('B', 'Tuple', [F(None, 'Own<0>')]), V('C', 'Tuple', [F(None, own(i))], ['embed'])], overlap=True, **zero))
for i, t in enumerate(['E_NewP1', 'E_RecO2', 'G_RecO1', 'GN', 'EM4', 'E_TwoP3', 'D_NewP0']):
    f.add(Struct(f'HE{i}', 'Named', [F('a', t), opt('b', f'Option<{t}>'), F('c', f'Vec<{t}>')], ['no_default'], default='none'), default_impl=False)
    f.add(Enum(f'EE{i}', [V('N'), V('A', 'Tuple', [F(None, t)]), V('B', 'Tuple', [F(None, t), F(None, f'Vec<{t}>')])], **zero))
# Generics.
B = 'Subj + Encode + Decode + Default'
g = dict(generics='<T>', ty_args='<T>', bounds=f'T: {B}')
f.add(Struct('G', 'Named', [F('b', 'T'), opt('a', 'T'), F('c', 'Vec<T>')], **g))
f.add(Struct('GA', 'Tuple', [F(None, 'T'), F(None, 'Option<T>'), F(None, '[T; 2]')], **g))
f.add(Struct('GW', 'Tuple', [F(None, 'T')], ['transparent'], **g))
f.add(Enum('GE', [V('Z'), V('A', 'Tuple', [F(None, 'T')]), V('B', 'Named', [F('t', 'T'), opt('o', 'T')]), V('C', 'Tuple', [F(None, 'T'), F(None, 'Vec<T>')])], generics='<T>', ty_args='<T>', bounds=f'T: {B}', rust_default='D::Var(0, vec![])'))
for i in range(5):
    for t in ['G<{o}>', 'GA<{o}>', 'GW<{o}>', 'GE<{o}>', 'G<GW<{o}>>', 'GE<G<{o}>>', 'GW<GW<{o}>>', 'Vec<GE<GW<{o}>>>', 'G<GE<{o}>>', 'GA<WT1>' if i == 0 else 'GA<Vec<{o}>>']:
        f.reg(t.format(o=own(i)))
f.write(os.path.join(root, 'mc/own/src/types.rs'), 'gen_own.py')
print(len(f.regs), 'types')
