#!/usr/bin/env python3
"""C26: which declarations the derive macros accept.

Enumerates declarations (shapes x attributes x derived traits) within bounds, lets a reference
predicate say which are contradictory and which are in order, has the real macros and compiler judge
every one of them, and compares. Usage: check.py [--thorough | --replay FILE]."""
import itertools, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.environ.get('VERIF_DIR') or os.path.dirname(os.path.dirname(HERE))
RUN = os.path.join(os.environ.get('VERIF_RUN_DIR') or os.path.join(VERIF, 'target', 'run'), 'decl')
START = time.time()

TRAITS = {'E': 'cbor::Encode', 'D': 'cbor::Decode', 'ED': 'cbor::Encode, cbor::Decode'}
CONTAINER = {'transparent': '', 'untagged': '', 'tag': ' = "t"', 'as_array': '', 'no_default': '', 'with_default': '', 'allow_unknown': ''}
VARIANT = {'rename': ' = "r"', 'as_array': '', 'as_struct': '', 'skip': '', 'embed': '', 'allow_unknown': '', 'missing': ''}
FIELD = {'rename': ' = "r"', 'optional': '', 'skip': '', 'skip_serializing_if': ' = "skip"', 'serialize_with': ' = "ser"', 'deserialize_with': ' = "de"'}
LEGAL, ILLEGAL, FREE = 'legal', 'contradictory', 'free'

# How the crate with the declarations gets the library.
SETUPS = {
    'direct': {'edition': '2021', 'dep': 'oasis-cbor = { path = "/repo", features = ["serde"] }', 'use': 'use oasis_cbor as cbor;', 'root': 'oasis_cbor'},
    'renamed': {'edition': '2021', 'dep': 'cbor = { package = "oasis-cbor", path = "/repo", features = ["serde"] }', 'use': '', 'root': 'cbor'},
    'older edition': {'edition': '2018', 'dep': 'c-b-o-r = { package = "oasis-cbor", path = "/repo" }', 'use': 'use c_b_o_r as cbor;', 'root': 'c_b_o_r'},
    'through another crate': {'edition': '2021', 'dep': 'sdk = { path = "sdk" }', 'use': 'use sdk::{oasis_cbor, oasis_cbor as cbor};', 'root': 'sdk::oasis_cbor'},
}

PRELUDE = '''#![allow(dead_code, unused_imports, unused_variables, non_camel_case_types, unreachable_code, unreachable_patterns)]
pub fn skip(v: &u8) -> bool { *v == 0 }
pub fn ser(v: &u8) -> u8 { *v }
pub fn de(v: u8) -> Result<u8, ROOT::DecodeError> { Ok(v) }
#[derive(Default)]
pub struct Inner { pub i: u8 }
impl ROOT::Encode for Inner { fn into_cbor_value(self) -> ROOT::Value { ROOT::Value::Map(vec![]) } }
impl ROOT::EncodeAsMap for Inner {}
impl ROOT::Decode for Inner { fn try_default() -> Result<Self, ROOT::DecodeError> { Ok(Inner::default()) } fn try_from_cbor_value(_: ROOT::Value) -> Result<Self, ROOT::DecodeError> { Ok(Inner::default()) } }
pub enum Other { X, Y(bool) }
impl ROOT::Encode for Other { fn into_cbor_value(self) -> ROOT::Value { ROOT::Value::Array(vec![]) } }
impl ROOT::Decode for Other { fn try_from_cbor_value(_: ROOT::Value) -> Result<Self, ROOT::DecodeError> { Ok(Other::X) } }
'''


def attr(names, table):
    return '' if not names else '#[cbor(%s)] ' % ', '.join(n + table[n] for n in names)


def both(a, b):
    """Verdict of two conditions that both apply."""
    return ILLEGAL if ILLEGAL in (a, b) else FREE if FREE in (a, b) else LEGAL


class Case:
    def __init__(self, name, src, want, setup='direct'):  # setup: one of SETUPS
        self.name, self.src, self.want, self.setup = name, src, want, setup


def container_verdict(c):
    if 'no_default' in c and 'with_default' in c:
        return ILLEGAL
    if 'untagged' in c and 'tag' in c:
        return ILLEGAL
    return LEGAL


# Fields: (name or None, type, attributes).
def fields_src(shape, fattrs, tys=('u8', 'u8')):
    a = attr(fattrs, FIELD)
    n = {'unit': 0, 'empty': 0, 'named1': 1, 'new': 1, 'named2': 2, 'tuple2': 2, 'tuple3': 3}[shape]
    fs = []
    for i in range(n):
        t = tys[i] if i < len(tys) else 'bool'
        # Attributes go on the last field.
        fs.append((a if i == n - 1 else '') + (('abc'[i] + ': ') if shape.startswith('named') else '') + t)
    if shape == 'unit':
        return ''
    if shape == 'empty' or shape.startswith('named'):
        return ' { ' + ', '.join(fs) + ' }'
    return '(' + ', '.join(fs) + ')'


def fields_verdict(array, traits, fattrs):
    """Field attributes in a map or array layout."""
    if not fattrs:
        return LEGAL
    f = set(fattrs)
    if 'skip' in f:
        return LEGAL if f == {'skip'} else FREE
    if array:
        if 'skip_serializing_if' in f:
            return ILLEGAL if 'E' in traits else FREE
        return LEGAL if f <= {'serialize_with', 'deserialize_with'} else FREE
    if 'skip_serializing_if' in f and 'optional' not in f:
        return FREE
    return LEGAL


def structs(thorough):
    shapes = ['unit', 'empty', 'named1', 'named2', 'new', 'tuple2']
    subsets = [s for k in range(8 if thorough else 4) for s in itertools.combinations(CONTAINER, k)]
    fsets = [s for k in range(1, 4 if thorough else 3) for s in itertools.combinations(FIELD, k)]
    for shape in shapes:
        for traits in TRAITS:
            plans = [(c, ()) for c in subsets]
            if shape not in ('unit', 'empty'):
                plans += [(c, f) for c in subsets if len(c) <= (2 if thorough else 1) for f in fsets]
            for c, f in plans:
                s = set(c)
                v = container_verdict(s)
                array = 'as_array' in s or shape in ('new', 'tuple2')
                if 'transparent' in s:
                    if shape != 'new':
                        v = both(v, FREE if shape == 'unit' and traits == 'E' else ILLEGAL)
                    else:
                        if f or s & {'as_array', 'allow_unknown'}:
                            v = both(v, FREE)
                elif shape == 'unit':
                    if s & {'as_array', 'allow_unknown'}:
                        v = both(v, FREE)
                else:
                    v = both(v, fields_verdict(array, traits, f))
                    if shape in ('new', 'tuple2') and 'as_array' in s or array and 'allow_unknown' in s:
                        v = both(v, FREE)
                if s & {'untagged', 'tag'}:
                    v = both(v, FREE)
                src = '#[derive(Default, %s)] %spub struct S%s%s' % (TRAITS[traits], attr(c, CONTAINER), fields_src(shape, f), ';' if shape in ('unit', 'new', 'tuple2') else '')
                yield Case(f'struct {shape} {traits} {",".join(c)} field {",".join(f)}', src, v)


def variant_verdict(shape, tys, va, fa, c, traits):
    """A variant, given the attributes of the enum."""
    s = set(va)
    tagged, untagged = 'tag' in c, 'untagged' in c
    if 'skip' in s:
        # A skipped variant has no form.
        return LEGAL if s <= {'skip', 'rename'} and not fa else FREE
    v = LEGAL
    if 'embed' in s:
        if shape != 'new':
            v = ILLEGAL
        elif tagged:
            v = ILLEGAL
        elif s - {'embed'} or untagged or fa:
            v = FREE
        return v
    if tagged and shape in ('tuple2',):
        v = ILLEGAL
    if tagged and 'as_array' in s and shape == 'named2':
        v = ILLEGAL
    if tagged and shape == 'new' and tys[0] != 'crate::Inner':
        v = both(v, ILLEGAL if 'E' in traits else FREE)
    array = shape == 'tuple2' or 'as_array' in s
    if shape in ('named2', 'tuple2'):
        v = both(v, fields_verdict(array, traits, fa))
    elif fa:
        v = both(v, FREE)
    if 'as_array' in s and shape != 'named2':
        v = both(v, FREE)
    if 'as_struct' in s and shape != 'unit':
        v = both(v, FREE)
    if 'as_struct' in s and (tagged or untagged):
        v = both(v, FREE)
    if 'allow_unknown' in s and (shape != 'named2' or array):
        v = both(v, FREE)
    if 'missing' in s and not tagged:
        v = both(v, FREE)
    if 'rename' in s and untagged:
        v = both(v, FREE)
    return v


def enum_case(c, variants, traits, what):
    """variants: (shape, types, variant attributes, field attributes)."""
    s = set(c)
    v = container_verdict(s)
    if 'transparent' in s or 'untagged' in s and 'D' in traits:
        v = ILLEGAL
    for shape, tys, va, fa in variants:
        v = both(v, variant_verdict(shape, tys, va, fa, s, traits))
    missing = [x for x in variants if 'missing' in x[2] and 'skip' not in x[2]]
    if 'tag' in s and len(missing) > 1:
        v = both(v, ILLEGAL if 'D' in traits else FREE)
    if s & {'as_array', 'allow_unknown', 'no_default'}:
        v = both(v, FREE)
    vs = ', '.join(attr(va, VARIANT) + 'V%d' % i + fields_src(shape, fa, tys) for i, (shape, tys, va, fa) in enumerate(variants))
    src = '#[derive(%s)] %spub enum S { Z, %s } impl Default for S { fn default() -> Self { S::Z } }' % (TRAITS[traits], attr(c, CONTAINER), vs)
    return Case('enum ' + what, src, v)


KINDS = [('unit', ()), ('new', ('u8',)), ('new', ('crate::Inner',)), ('new', ('crate::Other',)), ('tuple2', ('u8', 'u8')), ('named2', ('u8', 'u8'))]


def enums(thorough):
    csub = [s for k in range(4 if thorough else 3) for s in itertools.combinations(CONTAINER, k)]
    vsub = [s for k in range(4 if thorough else 3) for s in itertools.combinations(VARIANT, k)]
    for traits in TRAITS:
        for c in csub:
            for shape, tys in KINDS:
                for va in vsub:
                    if len(c) + len(va) > (4 if thorough else 3):
                        continue
                    yield enum_case(c, [(shape, tys, va, ())], traits, f'{shape}{tys} {traits} {",".join(c)} variant {",".join(va)}')
        # Field attributes inside variants.
        for c in [(), ('tag',), ('untagged',)]:
            for shape in ('named2', 'tuple2'):
                for va in [(), ('as_array',), ('skip',)]:
                    for fa in [s for k in (1, 2) for s in itertools.combinations(FIELD, k)]:
                        yield enum_case(c, [(shape, ('u8', 'u8'), va, fa)], traits, f'{shape} {traits} {",".join(c)} variant {",".join(va)} field {",".join(fa)}')
        # Two and three variants, of which some are declared for a missing tag.
        marks = [(), ('missing',), ('missing', 'skip'), ('missing', 'rename')]
        kinds = [('unit', ()), ('new', ('crate::Inner',)), ('named2', ('u8', 'u8'))]
        for c in [('tag',), ('tag', 'with_default')]:
            for a, b in itertools.product(itertools.product(kinds, marks), repeat=2):
                yield enum_case(c, [(*a[0], a[1], ()), (*b[0], b[1], ())], traits, f'{traits} {",".join(c)} {a} {b}')
            for ms in itertools.product(marks[:3], repeat=3):
                yield enum_case(c, [(*k, m, ()) for k, m in zip(kinds, ms)], traits, f'{traits} {",".join(c)} three {ms}')
        # A contradiction in any of three variants.
        bad = [('tuple2', ('u8', 'u8'), (), ()), ('named2', ('u8', 'u8'), ('as_array',), ()), ('named2', ('u8', 'u8'), ('embed',), ()), ('new', ('crate::Inner',), ('embed',), ()), ('unit', (), ('embed',), ())]
        ok = ('named2', ('u8', 'u8'), (), ())
        for c in [(), ('tag',), ('with_default',)]:
            for b in bad:
                for i in range(3):
                    vs = [ok, ok, ok]
                    vs[i] = b
                    yield enum_case(c, vs, traits, f'{traits} {",".join(c)} {b} at {i}')


def attributes(_):
    """Attributes that do not exist where they are given, and values of the wrong kind."""
    names = {**CONTAINER, **VARIANT, **FIELD}
    strange = {'default': '', 'nonsense': '', 'Rename': ' = "r"', 'skip_if': ' = "skip"', 'flatten': '', 'other': ' = 1'}
    every = {**names, **strange}
    for traits, ts in TRAITS.items():
        d = f'#[derive(Default, {ts})] '
        e = f'#[derive({ts})] '
        places = {
            'struct': (CONTAINER, lambda a: f'{d}{a}pub struct S {{ a: u8 }}'),
            'tuple struct': (CONTAINER, lambda a: f'{d}{a}pub struct S(u8, u8);'),
            'enum': (CONTAINER, lambda a: f'{e}{a}pub enum S {{ A, B(u8) }}'),
            'unit variant': (VARIANT, lambda a: f'{e}pub enum S {{ {a}A, B(u8) }}'),
            'newtype variant': (VARIANT, lambda a: f'{e}pub enum S {{ A, {a}B(u8) }}'),
            'struct variant': (VARIANT, lambda a: f'{e}pub enum S {{ A, {a}B {{ x: u8 }} }}'),
            'field': (FIELD, lambda a: f'{d}pub struct S {{ a: u8, {a}b: u8 }}'),
            'tuple field': (FIELD, lambda a: f'{d}pub struct S(u8, {a}u8);'),
            'field of a variant': (FIELD, lambda a: f'{e}pub enum S {{ A, B {{ {a}x: u8, y: u8 }} }}'),
            'tuple field of a variant': (FIELD, lambda a: f'{e}pub enum S {{ A, B({a}u8, u8) }}'),
        }
        for place, (table, src) in places.items():
            for n in every:
                if n not in table:
                    yield Case(f'{n} on {place} {traits}', src(f'#[cbor({n}{every[n]})] '), ILLEGAL)
                    yield Case(f'{n} beside another on {place} {traits}', src(f'#[cbor({list(table)[0]}{table[list(table)[0]]}, {n}{every[n]})] '), ILLEGAL)
            for n in table:
                if table[n]:
                    values = [' = true', '', '(x)'] if n not in ('rename', 'tag') else [' = true', '', '(x)', ' = 1.5', " = 'c'", ' = b"b"', ' = 18446744073709551616', ' = -1']
                    for x in values:
                        yield Case(f'{n}{x} on {place} {traits}', src(f'#[cbor({n}{x})] '), ILLEGAL)
                    yield Case(f'{n} twice on {place} {traits}', src(f'#[cbor({n}{table[n]}, {n}{table[n]})] '), ILLEGAL)
                else:
                    yield Case(f'{n} with a value on {place} {traits}', src(f'#[cbor({n} = "x")] '), ILLEGAL)
        yield Case(f'union {traits}', f'#[derive({ts})] pub union S {{ a: u8, b: u8 }}', ILLEGAL)
        # Numeric and text keys.
        for n in [0, 1, 23, 24, 255, 256, 65536, 4294967296, 18446744073709551615]:
            yield Case(f'rename = {n} {traits}', f'{d}pub struct S {{ #[cbor(rename = {n})] a: u8 }}', LEGAL)
            yield Case(f'variant rename = {n} {traits}', f'{e}pub enum S {{ #[cbor(rename = {n})] A(u8), B }}', LEGAL)
            yield Case(f'tag = {n} {traits}', f'{e}#[cbor(tag = {n})] pub enum S {{ A {{ x: u8 }}, B }}', LEGAL)
        for t in ['""', '"a b"', '"\\u{e9}"', '"type"', 'r"raw"']:
            yield Case(f'rename = {t} {traits}', f'{d}pub struct S {{ #[cbor(rename = {t})] a: u8 }}', LEGAL)
            yield Case(f'tag = {t} {traits}', f'{e}#[cbor(tag = {t})] pub enum S {{ A {{ x: u8 }}, B }}', LEGAL)
        for x, w in [('1', LEGAL), ('"A"', ILLEGAL)]:
            yield Case(f'discriminant {x} {traits}', f'{e}pub enum S {{ A = {x}, B }}', w)
        # Content that cannot be encoded or decoded.
        yield Case(f'foreign field {traits}', f'{d}pub struct S {{ a: std::cell::Cell<u8> }}', ILLEGAL)
        yield Case(f'foreign content {traits}', f'{e}pub enum S {{ A(std::cell::Cell<u8>), B }}', ILLEGAL)
        yield Case(f'skipped foreign field {traits}', f'{d}pub struct S {{ #[cbor(skip)] a: std::cell::Cell<u8>, b: u8 }}', LEGAL)


# Where a declaration stands. Bodies use no name from the prelude but the ones the macros may take for granted.
BODIES = {
    'struct': ('D', 'pub struct S { a: u8, #[cbor(optional)] b: ::std::option::Option<u16>, #[cbor(optional, rename = "z", skip_serializing_if = "crate::skip")] c: u8, #[cbor(skip)] d: u8, #[cbor(rename = 7, serialize_with = "crate::ser", deserialize_with = "crate::de")] e: u8 }'),
    'array struct': ('D', '#[cbor(as_array)] pub struct S { a: u8, #[cbor(skip)] b: u8, c: crate::Inner }'),
    'tuple struct': ('D', 'pub struct S(u8, ::std::vec::Vec<u8>);'),
    'newtype': ('D', 'pub struct S(u8);'),
    'transparent': ('D', '#[cbor(transparent)] pub struct S(u64);'),
    'unit struct': ('D', 'pub struct S;'),
    'lenient struct': ('D', '#[cbor(allow_unknown, no_default)] pub struct S { a: u8 }'),
    'enum': ('E', 'pub enum S { #[cbor(rename = 1)] A, B(u8), C { x: u8, #[cbor(optional)] y: u8 }, D(u8, u8), #[cbor(as_array)] F { x: u8, y: u8 }, #[cbor(as_struct)] G, #[cbor(skip)] H(u8), #[cbor(allow_unknown)] I { x: u8 } }'),
    'plain enum': ('E', 'pub enum S { A = 1, B = 2 }'),
    'tagged enum': ('E', '#[cbor(tag = "t")] pub enum S { A { x: u8 }, B, C(crate::Inner), #[cbor(missing)] D { y: u8 } }'),
    'embedding enum': ('E', 'pub enum S { A, B(u8), #[cbor(embed)] C(crate::Other) }'),
    'enum with default': ('E', '#[cbor(with_default)] pub enum S { A, B(u8) } impl ::std::default::Default for S { fn default() -> Self { S::A } }'),
}
UNTAGGED = ('U', '#[cbor(untagged)] pub enum S { A(u8), B { x: u8 } }')

# Other names that may be in scope. The macros may take the other names of the prelude and its macros for granted (TAKEN);
# nothing else in scope may matter.
SHADOWS = {
    'result alias': 'pub type Result<T> = ::std::result::Result<T, ::std::string::String>;',
    'result struct': 'pub struct Result;',
    'own Value': 'pub struct Value;', 'own SimpleValue': 'pub enum SimpleValue { NullValue }', 'own DecodeError': 'pub enum DecodeError { MissingField }',
    'own Encode trait': 'pub trait Encode { fn into_cbor_value(self) -> u8; }', 'own Decode trait': 'pub trait Decode { fn try_from_cbor_value(v: u8) -> Self; }', 'own EncodeAsMap': 'pub trait EncodeAsMap {}',
    'own traits implemented': 'pub trait Enc2: ::std::marker::Sized { fn into_cbor_value(&self) -> u8 { 0 } fn into_optional_cbor_value(&self) -> u8 { 0 } } pub trait Dec2: ::std::marker::Sized { fn try_from_cbor_value(v: u8) -> u8 { v } fn try_from_cbor_value_default(v: u8) -> u8 { v } fn try_default() -> u8 { 0 } } impl Dec2 for u8 {} impl Enc2 for () {}',
    'own Vec': 'pub struct Vec;',
    'module std': 'pub mod std {} pub mod core {} pub mod alloc {}', 'module oasis_cbor_value': 'pub mod oasis_cbor_value {} pub mod values {} pub mod macros {}',
    'functions': 'pub fn fields() {} pub fn encode() {} pub fn decode() {} pub fn drop() {}', 'types named like bindings': '#[allow(non_camel_case_types)] pub type fields = u8; #[allow(non_camel_case_types)] pub type value = u8; #[allow(non_camel_case_types)] pub type it = u8;',
    'own Self-like': 'pub struct Fields; pub struct Map; pub struct Array; pub struct Simple; pub struct Unsigned; pub struct ByteString;',
}
TAKEN = {'own String': 'pub struct String;', 'own Box': 'pub struct Box;', 'own Into': 'pub trait Into {} pub trait From {}', 'own Iterator': 'pub trait Iterator {} pub trait IntoIterator {} pub trait Clone {} pub trait PartialEq {}', 'own Option': 'pub struct Option;', 'own Ok': 'pub fn Ok() {} pub fn Err() {}', 'own Some': 'pub fn Some() {}', 'own Default': 'pub trait Default {}', 'own vec macro': 'macro_rules! vec { () => {} }'}

WRAPS = {
    'plain': '%s',
    'nested module': 'pub mod n { pub mod n { USE %s } }',
    'in a function': 'pub fn f() { %s }',
    'in a closure': 'pub fn f() { let g = || { %s }; g() }',
    'in a method': 'pub struct Q; impl Q { pub fn f(&self) { %s } }',
    'in a generic function': 'pub fn f<T: Copy, const N: usize>() { %s }',
    'in a constant': 'pub const Q: u8 = { %s 1 };',
    'in a trait method': 'pub trait Q { fn f() { %s } }',
    'in an array length': 'pub static Q: [u8; { %s 2 }] = [0; 2];',
    'made by a macro': 'macro_rules! m { ($($t:item)*) => { $($t)* } } m! { %s }',
    'made by a macro from tokens': 'macro_rules! m { ($($t:tt)*) => { $($t)* } } m! { %s }',
    'made by a macro without input': 'macro_rules! m { () => { %s } } m!();',
    'in an unsafe block': 'pub fn f() { unsafe { %s } }',
    'in an async function': 'pub async fn f() { %s }',
    'beside another of that name': '%s pub mod o { USE #[derive(cbor::Encode)] pub struct S { q: u8 } }',
}


def contexts(thorough):
    def body(kind, traits, decl, cbor='cbor'):
        ts = ', '.join(cbor + '::' + {'E': 'Encode', 'D': 'Decode'}[t] for t in traits)
        return '#[derive(%s%s)] %s' % ('Default, ' if kind == 'D' else '', ts, decl)

    def every(traits):
        for n, (k, d) in BODIES.items():
            yield n, body(k, traits, d)
        if traits == 'E':
            yield 'untagged', body('E', 'E', UNTAGGED[1])

    for setup in SETUPS:
        for traits in TRAITS:
            for n, d in every(traits):
                yield Case(f'{setup}: {n} {traits}', d, LEGAL, setup)
        # What is refused is refused under any name.
        for d in ['#[cbor(transparent)] pub struct S(u8, u8);', '#[cbor(with_default, no_default)] pub struct S { a: u8 }', '#[cbor(nonsense)] pub struct S(u8);', '#[cbor(untagged, tag = "t")] pub struct S { a: u8 }', 'pub struct S { #[cbor(embed)] a: u8 }']:
            for traits in TRAITS:
                yield Case(f'{setup}: {d} {traits}', body('D', traits, d), ILLEGAL, setup)
        for wn, w in WRAPS.items():
            for n, d in every('ED'):
                src = w.replace('USE', SETUPS[setup]['use']) % d
                yield Case(f'{setup}: {n} {wn}', src, LEGAL, setup)
        for sn, s in SHADOWS.items():
            for n, d in every('ED'):
                yield Case(f'{setup}: {n} with {sn}', f'{s} {d}', LEGAL, setup)
                if thorough or setup == 'direct':
                    yield Case(f'{setup}: {n} in a function with {sn}', 'pub fn f() { %s %s }' % (s, d), LEGAL, setup)
        for sn, s in TAKEN.items():
            for n, d in every('ED'):
                yield Case(f'{setup}: {n} with {sn}', f'{s} {d}', FREE, setup)

    # Generics, visibilities, other attributes.
    for setup in SETUPS if thorough else ['direct', 'renamed']:
        for traits in TRAITS:
            b = {'E': 'cbor::Encode', 'D': 'cbor::Decode', 'ED': 'cbor::Encode + cbor::Decode'}[traits]
            params = {
                'bounded': (f'<T: Default + {b}>', '', 'T'),
                'where': ('<T>', f' where T: Default + {b}', 'T'),
                'two bounds': (f'<T: {b}, U: Clone>', ' where T: Default, U: Default + %s' % b, 'T'),
                'default type': (f'<T: Default + {b} = u8>', '', 'T'),
                'constant': ('<const N: usize>', '', 'u8'),
                'constant and type': (f'<T: Default + {b}, const N: usize>', '', 'T'),
                'lifetime in bound': (f"<T: {b} + 'static>", ' where T: Default', 'T'),
                'associated type': ('<T: Iterator>', f' where T::Item: Default + {b}', 'T::Item'),
                'bound on a container': ('<T>', f' where ::std::vec::Vec<T>: Default + {b}', '::std::vec::Vec<T>'),
            }
            if traits == 'E':
                params['borrowed'] = ("<'a>", '', "&'a u8")
                params['borrowed generic'] = ("<'a, T>", " where &'a T: cbor::Encode", "&'a T")
            for pn, (ps, wh, ty) in params.items():
                der = TRAITS[traits]
                has_u = 'U:' in ps
                extra = ', u: U' if has_u else ''
                dflt = '' if traits == 'E' else 'Default, '
                shapes = {
                    'struct': f'#[derive({dflt}{der})] pub struct S{ps}{wh} {{ a: {ty}{extra} }}',
                    'array struct': f'#[derive({dflt}{der})] #[cbor(as_array)] pub struct S{ps}{wh} {{ a: {ty}{extra} }}',
                    'no default': f'#[derive({der})] #[cbor(no_default)] pub struct S{ps}{wh} {{ a: {ty}{extra} }}',
                    'newtype': f'#[derive({dflt}{der})] pub struct S{ps}({ty}{", U" if has_u else ""}){wh};',
                    'enum': f'#[derive({der})] pub enum S{ps}{wh} {{ A, B({ty}), C {{ x: {ty}{extra} }} }}',
                    'tagged enum': f'#[derive({der})] #[cbor(tag = "t")] pub enum S{ps}{wh} {{ A, C {{ x: {ty}{extra} }} }}',
                }
                if not has_u:
                    shapes['transparent'] = f'#[derive({dflt}{der})] #[cbor(transparent)] pub struct S{ps}({ty}){wh};'
                for sn, s in shapes.items():
                    if pn == 'associated type' and 'Default, ' in s.split(')')[0]:
                        continue  # The standard Default asks for more than the declaration does.
                    if pn == 'bound on a container' and 'Default, ' in s.split(')')[0]:
                        continue
                    yield Case(f'{setup}: {sn} {traits} {pn}', s, LEGAL, setup)
            # A parameter that is not known to be encodable or decodable is refused.
            for sn, s in {'struct': 'pub struct S<T> { a: T }', 'newtype': 'pub struct S<T>(T);', 'transparent': '#[cbor(transparent)] pub struct S<T>(T);', 'enum': 'pub enum S<T> { A, B(T) }', 'struct variant': 'pub enum S<T> { A, B { x: T } }'}.items():
                yield Case(f'{setup}: {sn} {traits} unbounded', f'#[derive({TRAITS[traits]})] {s}' if 'enum' in s else f'#[derive({TRAITS[traits]})] #[cbor(no_default)] {s}', ILLEGAL, setup)
                if 'struct S' in s:
                    yield Case(f'{setup}: {sn} {traits} skipped parameter', '#[derive(%s)] pub struct S<T: Default> { #[cbor(skip)] a: T, b: u8 } impl<T: Default> Default for S<T> { fn default() -> Self { S { a: T::default(), b: 0 } } }' % TRAITS[traits], LEGAL, setup)
            der = TRAITS[traits]
            pre = f'#[derive(Default, {der})]'
            for vn, v in {'private': '', 'crate': 'pub(crate) ', 'super': 'pub(super) ', 'self': 'pub(self) ', 'in path': 'pub(in crate) '}.items():
                yield Case(f'{setup}: {vn} {traits}', f'{pre} {v}struct S {{ {v}a: u8, {v}b: u8 }}', LEGAL, setup)
                yield Case(f'{setup}: {vn} tuple {traits}', f'{pre} {v}struct S({v}u8, {v}u8);', LEGAL, setup)
                yield Case(f'{setup}: {vn} enum {traits}', f'#[derive({der})] {v}enum S {{ A, B(u8), C {{ x: u8 }} }}', LEGAL, setup)
            others = {
                'doc': '#[doc = "text"]', 'repr': '#[repr(C)]', 'must_use': '#[must_use]', 'deprecated': '#[deprecated]', 'allow': '#[allow(missing_docs)]', 'cfg_attr': '#[cfg_attr(all(), derive(Debug))]', 'cfg_attr none': '#[cfg_attr(any(), cbor(nonsense))]',
                'derives': '#[derive(Debug, Clone, PartialEq)]', 'non_exhaustive': '#[non_exhaustive]', 'doc hidden': '#[doc(hidden)]', 'block doc': '/** text */',
            }
            for on, o in others.items():
                yield Case(f'{setup}: {on} before {traits}', f'{o} {pre} pub struct S {{ a: u8, b: u8 }}', LEGAL, setup)
                yield Case(f'{setup}: {on} after {traits}', f'{pre} {o} pub struct S {{ a: u8, b: u8 }}', LEGAL, setup)
                yield Case(f'{setup}: {on} between {traits}', f'{pre} #[cbor(as_array)] {o} #[cbor(no_default)] pub struct S {{ a: u8, b: u8 }}', LEGAL, setup)
                yield Case(f'{setup}: {on} enum {traits}', f'#[derive({der})] {o} pub enum S {{ A(u8), B {{ x: u8 }} }}', LEGAL, setup)
                if on in ('doc', 'deprecated', 'allow', 'doc hidden', 'block doc', 'cfg_attr none'):
                    yield Case(f'{setup}: {on} on a field {traits}', f'{pre} pub struct S {{ a: u8, {o} b: u8, {o} #[cbor(rename = "r")] c: u8 }}', LEGAL, setup)
                    yield Case(f'{setup}: {on} on a variant {traits}', f'#[derive({der})] pub enum S {{ {o} A(u8), {o} #[cbor(rename = "r")] B {{ x: u8 }}, {o} C }}', LEGAL, setup)
                    yield Case(f'{setup}: {on} on a variant field {traits}', f'#[derive({der})] pub enum S {{ A(u8), B {{ {o} x: u8 }} }}', LEGAL, setup)
            yield Case(f'{setup}: attributes switched on {traits}', f'{pre} #[cfg_attr(all(), cbor(as_array))] pub struct S {{ a: u8, b: u8 }}', LEGAL, setup)
            yield Case(f'{setup}: nonsense switched on {traits}', f'{pre} #[cfg_attr(all(), cbor(nonsense))] pub struct S {{ a: u8, b: u8 }}', ILLEGAL, setup)
            # Parts that are configured away do not count.
            yield Case(f'{setup}: field away {traits}', f'{pre} pub struct S {{ a: u8, #[cfg(any())] b: Missing, #[cfg(all())] c: u8 }}', LEGAL, setup)
            yield Case(f'{setup}: last field away {traits}', f'{pre} pub struct S {{ a: u8, #[cfg(any())] b: Missing }}', LEGAL, setup)
            yield Case(f'{setup}: only field away {traits}', f'{pre} pub struct S {{ #[cfg(any())] b: Missing }}', LEGAL, setup)
            yield Case(f'{setup}: tuple field away {traits}', f'{pre} pub struct S(u8, #[cfg(any())] Missing, u8);', LEGAL, setup)
            yield Case(f'{setup}: newtype after one is away {traits}', f'{pre} #[cbor(transparent)] pub struct S(#[cfg(any())] Missing, u8);', LEGAL, setup)
            yield Case(f'{setup}: not a newtype {traits}', f'{pre} #[cbor(transparent)] pub struct S(#[cfg(all())] u8, u8);', ILLEGAL, setup)
            yield Case(f'{setup}: variant away {traits}', f'#[derive({der})] pub enum S {{ A, #[cfg(any())] B(Missing), #[cfg(all())] C(u8) }}', LEGAL, setup)
            yield Case(f'{setup}: bad variant away {traits}', f'#[derive({der})] #[cbor(tag = "t")] pub enum S {{ A, #[cfg(any())] B(u8, u8) }}', LEGAL, setup)
            yield Case(f'{setup}: declaration away {traits}', f'#[cfg(any())] {pre} #[cbor(nonsense)] pub struct S;', LEGAL, setup)
            # Names.
            for w in ['type', 'fn', 'match', 'move', 'async', 'dyn', 'try', 'in', 'ref', 'mut', 'box', 'static', 'yield']:
                yield Case(f'{setup}: field r#{w} {traits}', f'{pre} pub struct S {{ a: u8, r#{w}: u8, #[cbor(optional)] b: u8 }}', LEGAL, setup)
                yield Case(f'{setup}: variant r#{w} {traits}', f'#[derive({der})] pub enum S {{ A, r#{w}, r#struct(u8), r#for {{ r#{w}: u8 }} }}', LEGAL, setup)
                yield Case(f'{setup}: type r#{w} {traits}', f'{pre} pub struct r#{w} {{ a: u8 }}', LEGAL, setup)
            for w in ['fields', 'value', 'it', 'v', 'key', 'map', 'array', 'items', 'inner', 'result', 'self_', '__cbor', '__a0', '__a1', 'tag', 'index', 'default', 'x', '__']:
                yield Case(f'{setup}: field {w} {traits}', f'{pre} pub struct S {{ {w}: u8, #[cbor(optional)] b: u8 }}', LEGAL, setup)
                yield Case(f'{setup}: variant field {w} {traits}', f'#[derive({der})] pub enum S {{ A {{ {w}: u8, b: u8 }}, #[cbor(as_array)] B {{ b: u8, {w}: u8 }} }}', LEGAL, setup)
                yield Case(f'{setup}: tagged variant field {w} {traits}', f'#[derive({der})] #[cbor(tag = "t")] pub enum S {{ A {{ {w}: u8, b: u8 }}, B {{ b: u8, {w}: u8 }} }}', LEGAL, setup)
            for w in ['Ok', 'Err', 'Some', 'None', 'Value', 'Map', 'Encode', 'Decode', 'Default', 'Vec', 'Result', 'Option', 'DecodeError']:
                yield Case(f'{setup}: variant {w} {traits}', f'#[derive({der})] pub enum S {{ {w}, {w}2(u8), {w}3 {{ x: u8 }} }}', LEGAL, setup)
            # Parts that come out of a macro.
            for mn, (mac, use) in {
                'name': ('($n:ident) => { PRE pub struct $n { a: u8 } }', 'S'), 'field name': ('($n:ident) => { PRE pub struct S { $n: u8 } }', 'a'), 'two fields': ('($($n:ident: $t:ty),*) => { PRE pub struct S { $($n: $t),* } }', 'a: u8, b: ::std::vec::Vec<u8>'),
                'type': ('($t:ty) => { PRE pub struct S { a: $t } }', 'u8'), 'newtype': ('($t:ty) => { PRE #[cbor(transparent)] pub struct S($t); }', 'u8'), 'optional type': ('($t:ty) => { PRE pub struct S { #[cbor(optional)] a: ::std::option::Option<$t> } }', 'u8'),
                'key': ('($l:literal) => { PRE pub struct S { #[cbor(rename = $l)] a: u8 } }', '"r"'), 'numeric key': ('($l:literal) => { PRE pub struct S { #[cbor(rename = $l)] a: u8 } }', '7'), 'tag': ('($l:literal) => { #[derive(DER)] #[cbor(tag = $l)] pub enum S { A { x: u8 }, B } }', '"t"'),
                'variants': ('($($v:ident = $l:literal),*) => { #[derive(DER)] pub enum S { $(#[cbor(rename = $l)] $v),* } }', 'A = 1, B = "b"'), 'contents': ('($($v:ident($t:ty)),*) => { #[derive(DER)] pub enum S { $($v($t)),* } }', 'A(u8), B(::std::vec::Vec<u8>)'),
                'attribute': ('($(#[$m:meta])* $n:ident) => { PRE $(#[$m])* pub struct $n { a: u8, b: u8 } }', '#[cbor(as_array)] #[cbor(no_default)] S'), 'flag': ('($f:ident) => { PRE #[cbor($f)] pub struct S { a: u8 } }', 'as_array'),
                'visibility': ('($v:vis) => { PRE $v struct S { $v a: u8 } }', 'pub'), 'function': ('($f:literal) => { PRE pub struct S { #[cbor(serialize_with = $f)] a: u8 } }', '"crate::ser"'), 'traits': ('($($t:path),*) => { #[derive($($t),*)] #[cbor(no_default)] pub struct S { a: u8 } }', TRAITS[traits]),
            }.items():
                mac = mac.replace('PRE', pre).replace('DER', der)
                yield Case(f'{setup}: {mn} from a macro {traits}', 'macro_rules! m { %s } m! { %s }' % (mac, use), LEGAL, setup)
                yield Case(f'{setup}: {mn} from a macro in a function {traits}', 'pub fn f() { macro_rules! m { %s } m! { %s } }' % (mac, use), LEGAL, setup)
            yield Case(f'{setup}: nonsense from a macro {traits}', 'macro_rules! m { ($f:ident) => { %s #[cbor($f)] pub struct S { a: u8 } } } m! { nonsense }' % pre, ILLEGAL, setup)
            # Attributes in several groups.
            yield Case(f'{setup}: two groups {traits}', f'{pre} #[cbor(as_array)] #[cbor(no_default)] pub struct S {{ a: u8, b: u8 }}', LEGAL, setup)
            yield Case(f'{setup}: contradiction in two groups {traits}', f'{pre} #[cbor(with_default)] #[cbor(no_default)] pub struct S {{ a: u8, b: u8 }}', ILLEGAL, setup)
            yield Case(f'{setup}: tag and untagged in two groups {traits}', f'#[derive({der})] #[cbor(untagged)] #[cbor(tag = "t")] pub enum S {{ A {{ x: u8 }}, B }}', ILLEGAL, setup)
            yield Case(f'{setup}: two groups on a field {traits}', f'{pre} pub struct S {{ a: u8, #[cbor(optional)] #[cbor(rename = "r")] b: u8 }}', LEGAL, setup)
            yield Case(f'{setup}: nonsense in the second group {traits}', f'{pre} pub struct S {{ a: u8, #[cbor(optional)] #[cbor(nonsense)] b: u8 }}', ILLEGAL, setup)
            yield Case(f'{setup}: repeated over two groups {traits}', f'{pre} pub struct S {{ a: u8, #[cbor(rename = "q")] #[cbor(rename = "r")] b: u8 }}', ILLEGAL, setup)
            yield Case(f'{setup}: trailing comma {traits}', f'{pre} #[cbor(as_array, no_default,)] pub struct S {{ a: u8, #[cbor(skip,)] b: u8 }}', LEGAL, setup)


FAMILIES = [('structs', structs), ('enums', enums), ('attributes', attributes), ('contexts', contexts)]


def compile_all(cases):
    """The names of the declarations that are refused, with the first message for each."""
    refused, rounds = {}, 0
    for setup in SETUPS:
        mine = [i for i, c in enumerate(cases) if c.setup == setup]
        if mine:
            r, n = compile_in(SETUPS[setup], cases, mine)
            refused.update(r)
            rounds += n
    shutil.rmtree(RUN, ignore_errors=True)
    return refused, rounds


def compile_in(setup, cases, left):
    shutil.rmtree(RUN, ignore_errors=True)
    os.makedirs(os.path.join(RUN, 'src'))
    with open(os.path.join(RUN, 'Cargo.toml'), 'w') as f:
        f.write('[package]\nname = "decls"\nversion = "0.0.0"\nedition = "%s"\n\n[workspace]\n\n[dependencies]\n%s\n\n[profile.dev]\ndebug = false\nincremental = false\n' % (setup['edition'], setup['dep']))
    shutil.copy(os.path.join(HERE, 'Cargo.lock'), RUN)
    if 'sdk' in setup['dep']:
        os.makedirs(os.path.join(RUN, 'sdk', 'src'))
        with open(os.path.join(RUN, 'sdk', 'Cargo.toml'), 'w') as f:
            f.write('[package]\nname = "sdk"\nversion = "0.0.0"\nedition = "2021"\n\n[dependencies]\noasis-cbor = { path = "/repo" }\n')
        with open(os.path.join(RUN, 'sdk', 'src', 'lib.rs'), 'w') as f:
            f.write('pub use oasis_cbor;\n')
    prelude = PRELUDE.replace('ROOT', setup['root'])
    refused, rounds = {}, 0
    while True:
        rounds += 1
        lines = prelude.split('\n')[:-1]
        where = {}
        for i in left:
            lines.append('mod m%d { %s%s' % (i, setup['use'], '' if 'crate::skip' in cases[i].src else ' use crate::{skip, ser, de};'))
            where[len(lines)] = i
            lines.append(cases[i].src)
            where[len(lines)] = i
            lines.append('}')
            where[len(lines)] = i
        with open(os.path.join(RUN, 'src', 'lib.rs'), 'w') as f:
            f.write('\n'.join(lines) + '\n')
        p = subprocess.run(['cargo', 'check', '--offline', '--lib', '--message-format=json'], cwd=RUN, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        new = {}
        for l in p.stdout.split('\n'):
            if not l.startswith('{'):
                continue
            m = json.loads(l)
            if m.get('reason') != 'compiler-message' or m['message']['level'] != 'error' or m['target']['name'] != 'decls':
                continue
            m = m['message']
            found = set()
            for s in m['spans']:
                while s:
                    if s['file_name'].endswith('src/lib.rs') and s['line_start'] in where and (s['is_primary'] or not any(x['is_primary'] for x in m['spans'])):
                        found.add(where[s['line_start']])
                    s = s['expansion']['span'] if s.get('expansion') else None
            if m['spans'] and not found:
                sys.stderr.write('check of C26: an error outside the declarations\n' + (m.get('rendered') or m['message']))
                sys.exit(2)
            for i in found:
                new.setdefault(i, m['message'])
        if p.returncode == 0:
            break
        if not new:
            sys.stderr.write(p.stderr[-3000:])
            sys.exit(2)
        refused.update(new)
        left = [i for i in left if i not in new]
    return refused, rounds


def main():
    thorough = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
    if '--replay' in sys.argv:
        r = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        refused, _ = compile_all([Case(r['name'], r['src'], r['want'], r['setup'])])
        verdict = ILLEGAL if refused else LEGAL
        print(f'{r["name"]}: {"refused: " + refused[0] if refused else "accepted"} (should be {r["want"]})')
        if verdict != r['want']:
            print(f'VIOLATION property=C26 replay={sys.argv[sys.argv.index("--replay") + 1]}')
            return 1
        return 0
    cases, stats, seen = [], {}, set()
    for name, f in FAMILIES:
        st = stats[name] = {LEGAL: 0, ILLEGAL: 0, FREE: 0}
        for c in f(thorough):
            st[c.want] += 1
            if c.want != FREE and (c.setup, c.src) not in seen:
                seen.add((c.setup, c.src))
                cases.append(c)
    refused, rounds = compile_all(cases)
    bad = [(i, c) for i, c in enumerate(cases) if (c.want == ILLEGAL) != (i in refused)]
    replays = os.path.join(VERIF, 'replays')
    listing = os.environ.get('VERIF_LIST')
    for k, (i, c) in enumerate(bad):
        if k == 0 or listing:
            os.makedirs(replays, exist_ok=True)
            path = os.path.join(replays, f'C26-{k}.json')
            json.dump({'name': c.name, 'setup': c.setup, 'src': c.src, 'want': c.want}, open(path, 'w'), indent=1)
            print(f'VIOLATION property=C26 replay={path}')
            print(f'  {c.want} declaration {"refused: " + refused[i] if i in refused else "accepted"}: {c.src}')
    messages = sorted({m for m in refused.values()})
    wall = time.time() - START
    ev = {
        'property': 'C26', 'tier': 'thorough' if thorough else 'quick', 'seed': int(os.environ.get('VERIF_SEED') or 0), 'level': 'model_checking',
        'coverage': {
            'states': len(cases), 'transitions': len(cases), 'traces_validated_against_impl': len(cases), 'exhaustive': True,
            'rule': 'states: different declarations judged by the reference predicate; traces_validated_against_impl: declarations judged by the real macros and compiler (every one that the predicate does not leave open)',
            'bounds': [
                'structs: 6 shapes x 3 choices of derived traits x ' + ('all' if thorough else 'all up to three') + ' container attributes, and up to ' + ('three field attributes with up to two' if thorough else 'two field attributes with up to one') + ' container attribute(s)',
                'enums: 6 kinds of variants x 3 choices of derived traits x up to ' + ('three container and three variant attributes, four' if thorough else 'two container and two variant attributes, three') + ' in all; field attributes in variants; two and three variants for a missing tag; a contradiction in each of three variants',
                'attributes: every attribute name and six unknown ones at ten places they do not belong to, values of the wrong kind, attributes given twice; numeric and text keys',
            ],
            'families': stats, 'compiled': len(cases), 'refused': len(refused), 'compiler_rounds': rounds, 'distinct_messages': len(messages), 'messages': messages[:60],
            'declarations_by_setup': {n: sum(c.setup == n for c in cases) for n in SETUPS},
            'samples': [{'name': c.name, 'src': c.src, 'want': c.want} for c in cases[::max(1, len(cases) // 12)]],
        },
        'assumptions': ['the pinned compiler reports each refused declaration at its own line'],
        'wall_s': round(wall, 2), 'violations': len(bad),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', 'C26.json'), 'w'), indent=1)
    print(f'C26: {len(cases)} declarations, {len(refused)} refused, {rounds} rounds, {wall:.1f}s')
    return 1 if bad else 0


sys.exit(main())
