"""Rust source of types under test, with their descriptions and conversions to dynamic data."""


def key(k):
    return f'M::U({k})' if isinstance(k, int) else f't({rs(k)})'


def rs(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


class Field:
    def __init__(self, name, ty, attrs=(), key=None, opt=False, skip=False, skip_if=None, codec=None, rec=None):
        self.name, self.ty, self.attrs = name, ty, list(attrs)
        self.key = name if key is None else key
        self.opt, self.skip, self.skip_if, self.codec = opt, skip, skip_if, codec
        # Description of a type that the declaration is part of.
        self.rec = rec

    def decl(self, attr, pub=True):
        a = f'#[{attr}({", ".join(self.attrs)})] ' if self.attrs else ''
        p = 'pub ' if pub else ''
        return a + p + (f'{self.name}: {self.ty}' if self.name is not None else self.ty)

    def desc(self):
        k = key(self.key) if self.key is not None else 'NULL'
        ty = self.ty.replace("'a", "'static")
        s = f'fld({k}, {self.rec or f"<{ty} as Subj>::ty()"})'
        if self.opt:
            s += '.opt()'
        if self.skip:
            s += '.skipped()'
        if self.skip_if:
            s += f'.skip_when({self.skip_if})'
        if self.codec:
            s += f'.coded({self.codec}())'
        return s


def fields_decl(shape, fields, attr, pub):
    d = [f.decl(attr, pub) for f in fields]
    if shape == 'Unit':
        return ''
    if shape == 'Tuple':
        return '(' + ', '.join(d) + ')'
    return ' { ' + ', '.join(d) + ' }'


def build(path, shape, fields, src='v'):
    g = [f'Subj::from_d(&{src}[{i}])' for i in range(len(fields))]
    if shape == 'Unit':
        return path
    if shape == 'Tuple':
        return f'{path}({", ".join(g)})'
    return f'{path} {{ ' + ', '.join(f'{f.name}: {x}' for f, x in zip(fields, g)) + ' }'


def pattern(path, shape, fields):
    if shape == 'Unit':
        return path
    b = [f'x{i}' for i in range(len(fields))]
    if shape == 'Tuple':
        return f'{path}({", ".join(b)})'
    return f'{path} {{ ' + ', '.join(f'{f.name}: {x}' for f, x in zip(fields, b)) + ' }'


class Struct:
    def __init__(self, name, shape, fields, attrs=(), default='fields', generics='', ty_args='', bounds='', impl_generics=None):
        self.name, self.shape, self.fields, self.attrs = name, shape, fields, list(attrs)
        # 'fields': made of the fields' defaults; 'none': no default; otherwise the literal D.
        self.default = default
        self.generics, self.ty_args, self.bounds = generics, ty_args, bounds
        self.impl_generics = generics if impl_generics is None else impl_generics
        if shape == 'Tuple':
            for f in fields:
                f.name = None

    def emit(self, derives, attr='cbor', default_impl=True):
        n, ta = self.name, self.ty_args
        o = [f'#[derive({", ".join(derives)})]']
        if self.attrs:
            o.append(f'#[{attr}({", ".join(self.attrs)})]')
        body = fields_decl(self.shape, self.fields, attr, True)
        end = '' if self.shape == 'Named' else ';'
        wh = f' where {self.bounds}' if self.bounds else ''
        o.append(f'pub struct {n}{self.generics}{body if end == "" else body + wh}{end}' if not wh or end else
                 f'pub struct {n}{self.generics}{wh}{body}')
        b = self.bounds if 'Subj' in self.bounds else self.bounds.replace('Encode + Decode', 'Subj + Encode + Decode')
        wh = f' where {b}' if b else ''
        if self.default == 'fields':
            dflt = 'dfields(&fields)'
        elif self.default == 'none':
            dflt = 'None'
        else:
            dflt = f'Some({self.default})'
        fl = lambda x: str(x).lower()
        tr, aa, au = ('transparent' in self.attrs), ('as_array' in self.attrs), ('allow_unknown' in self.attrs)
        fs = ', '.join(f.desc() for f in self.fields)
        o.append(f'''impl{self.impl_generics} Subj for {n}{ta}{wh} {{
    fn ty() -> Ty {{
        let fields: Vec<FieldTy> = vec![{fs}];
        let default = {dflt};
        Ty::Struct(Arc::new(StructTy {{ name: {rs(n)}.into(), shape: Shape::{self.shape}, transparent: {fl(tr)}, as_array: {fl(aa)}, allow_unknown: {fl(au)}, fields, default }}))
    }}
    fn to_d(&self) -> D {{
        let {pattern(n, self.shape, self.fields)} = self;
        D::Seq(vec![{', '.join(f'x{i}.to_d()' for i in range(len(self.fields)))}])
    }}
    fn from_d(d: &D) -> Self {{
        let v = d.seq();
        let _ = v;
        {build(n, self.shape, self.fields)}
    }}
}}''')
        if self.default != 'none' and default_impl:
            o.append(f'''impl{self.impl_generics} Default for {n}{ta}{wh} {{
    fn default() -> Self {{
        Self::from_d(&std_default(&Self::ty()))
    }}
}}''')
        return '\n'.join(o)


class Variant:
    def __init__(self, name, shape='Unit', fields=(), attrs=(), key=None, discr=None):
        self.name, self.shape, self.fields, self.attrs = name, shape, list(fields), list(attrs)
        self.key = name if key is None else key
        self.discr = discr  # (source text, value)
        if shape == 'Tuple':
            for f in self.fields:
                f.name = None

    def desc(self):
        a = self.attrs
        fl = lambda x: str(x).lower()
        d = 'None' if self.discr is None else f'Some(int({self.discr[1]}))'
        newtype = self.shape == 'Tuple' and len(self.fields) == 1 and not self.fields[0].skip
        fs = ', '.join(f.desc() for f in self.fields)
        return (f'VariantTy {{ key: {key(self.key)}, discr: {d}, shape: Shape::{self.shape}, newtype: {fl(newtype)}, '
                f'as_array: {fl("as_array" in a)}, as_struct: {fl("as_struct" in a)}, skip: {fl("skip" in a)}, '
                f'embed: {fl("embed" in a)}, allow_unknown: {fl("allow_unknown" in a)}, missing: {fl("missing" in a)}, '
                f'fields: vec![{fs}] }}')


class Enum:
    def __init__(self, name, variants, attrs=(), tag=None, overlap=False, default=None, generics='', ty_args='', bounds='', repr=None, rust_default=None, impl_generics=None):
        self.name, self.variants, self.attrs, self.tag = name, variants, list(attrs), tag
        self.overlap, self.default = overlap, default
        self.generics, self.ty_args, self.bounds, self.repr = generics, ty_args, bounds, repr
        self.impl_generics = generics if impl_generics is None else impl_generics
        # Variant made the Default without the codec knowing.
        self.rust_default = rust_default

    def emit(self, derives, attr='cbor'):
        n, ta = self.name, self.ty_args
        o = [f'#[derive({", ".join(derives)})]']
        if self.repr:
            o.append(f'#[repr({self.repr})]')
        if self.attrs:
            o.append(f'#[{attr}({", ".join(self.attrs)})]')
        vs = []
        for v in self.variants:
            a = f'#[{attr}({", ".join(v.attrs)})] ' if v.attrs else ''
            d = f' = {v.discr[0]}' if v.discr else ''
            vs.append(f'    {a}{v.name}{fields_decl(v.shape, v.fields, attr, False)}{d},\n')
        wh = f' where {self.bounds}' if self.bounds else ''
        o.append(f'pub enum {n}{self.generics}{wh} {{\n{"".join(vs)}}}')
        b = self.bounds if 'Subj' in self.bounds else self.bounds.replace('Encode + Decode', 'Subj + Encode + Decode')
        wh = f' where {b}' if b else ''
        fl = lambda x: str(x).lower()
        tag = 'None' if self.tag is None else f'Some({key(self.tag)})'
        dflt = 'None' if self.default is None else f'Some({self.default})'
        to_arms = ''.join(
            f'            {pattern(n + "::" + v.name, v.shape, v.fields)} => D::Var({i}, vec![{", ".join(f"x{j}.to_d()" for j in range(len(v.fields)))}]),\n'
            for i, v in enumerate(self.variants))
        from_arms = ''.join(
            f'            {i} => {build(n + "::" + v.name, v.shape, v.fields)},\n' for i, v in enumerate(self.variants))
        o.append(f'''impl{self.impl_generics} Subj for {n}{ta}{wh} {{
    fn ty() -> Ty {{
        Ty::Enum(Arc::new(EnumTy {{ name: {rs(n)}.into(), tag: {tag}, untagged: {fl('untagged' in self.attrs)}, default: {dflt}, overlap: {fl(self.overlap)}, variants: vec![
            {(","+chr(10)+"            ").join(v.desc() for v in self.variants)}
        ] }}))
    }}
    fn to_d(&self) -> D {{
        match self {{
{to_arms}        }}
    }}
    fn from_d(d: &D) -> Self {{
        let D::Var(i, v) = d else {{ panic!("{{d:?}}") }};
        let _ = v;
        match i {{
{from_arms}            _ => panic!("{{d:?}}"),
        }}
    }}
}}''')
        dv = self.default or self.rust_default
        if dv:
            o.append(f'''impl{self.impl_generics} Default for {n}{ta}{wh} {{
    fn default() -> Self {{
        Self::from_d(&{dv})
    }}
}}''')
        return '\n'.join(o)


HEADER = '''// Written by tools/{tool}. Do not edit.
#![allow(clippy::all, unused, dead_code, non_camel_case_types)]
use std::collections::*;
use std::sync::Arc;

use mccore::model::*;
use oasis_cbor::{{Decode, Encode, Value}};
{extra}
use {crate}::schema::*;
use {crate}::subj::*;
'''
