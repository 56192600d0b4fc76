//! C12 to C16, C21: derived types.
use std::collections::HashSet;
use std::sync::OnceLock;

use mccore::explore::{Ctx, Engine, Prop, Worker};
use mccore::model::*;

use crate::checks::{self, Out, Reg};
use crate::dom::*;
use crate::schema::*;
use crate::subj::*;

static REG: OnceLock<Reg> = OnceLock::new();

pub fn set(list: Vec<Ops>) {
    assert!(REG.set(Reg::new(list)).is_ok());
}
fn reg() -> &'static Reg {
    REG.get().unwrap()
}

fn eng(name: &'static str, check: mccore::explore::Check) -> Engine {
    Engine { name, check }
}

fn enc_case(arg: &str, b: &[u8]) -> Out {
    checks::encode(reg().get(arg), &bytes_d(b))
}
fn opt_case(arg: &str, b: &[u8]) -> Out {
    checks::omission(reg().get(arg), &bytes_d(b))
}
fn dec_case(arg: &str, b: &[u8]) -> Out {
    checks::decode(reg().get(arg), &bytes_m(b))
}
fn null_case(arg: &str, b: &[u8]) -> Out {
    checks::nulls(reg().get(arg), &bytes_m(b))
}

pub fn struct_props() -> Vec<Prop> {
    vec![
        Prop { id: "C12", engines: vec![eng("values", enc_case), eng("omission", opt_case)], explore: explore_values },
        Prop {
            id: "C13",
            engines: vec![eng("inputs", dec_case), eng("subsets", dec_case), eng("others", dec_case)],
            explore: |ctx, p| {
                inputs_of_all(ctx, p);
                subsets(ctx, p);
                others(ctx, p);
            },
        },
    ]
}

pub fn enum_props() -> Vec<Prop> {
    vec![
        Prop { id: "C14", engines: vec![eng("values", enc_case), eng("omission", opt_case)], explore: explore_values },
        Prop {
            id: "C15",
            engines: vec![eng("inputs", dec_case), eng("subsets", dec_case), eng("forms", dec_case), eng("others", dec_case)],
            explore: |ctx, p| {
                inputs_of_all(ctx, p);
                subsets(ctx, p);
                forms(ctx, p);
                others(ctx, p);
            },
        },
    ]
}

pub fn both_props() -> Vec<Prop> {
    vec![
        Prop { id: "C16", engines: vec![eng("top", null_case), eng("parts", dec_case), eng("omission", opt_case), eng("absent", enc_case)], explore: explore_nulls },
        Prop { id: "C21", engines: vec![eng("carriers", marker_case), eng("values", map_case), eng("exceptions", map_case)], explore: explore_maps },
    ]
}

fn explore_values(ctx: &Ctx, p: &Prop) {
    let (e, o) = (p.engine("values"), p.engine("omission"));
    let reg = reg();
    let n = if ctx.thorough { 20000 } else { 4000 };
    ctx.bound(format!("values: {} derived types, up to {n} values of each (every field over its boundary values, in all combinations while these are few, else every pair of fields); each encoded through every entry point and decoded back", reg.list.len()));
    ctx.bound("omission: the same values as optional content");
    ctx.par(reg.list.len(), true, |w, i| {
        let t = &reg.list[i];
        for d in dom(&t.ty, n) {
            let b = d_bytes(&d);
            w.case(&e, &t.name, &b);
            w.case(&o, &t.name, &b);
        }
    });
}

fn decoders() -> Vec<&'static Ops> {
    reg().list.iter().filter(|o| o.dec.is_some()).collect()
}

fn inputs_of_all(ctx: &Ctx, p: &Prop) {
    let e = p.engine("inputs");
    let list = decoders();
    let n = if ctx.thorough { 20 } else { 5 };
    ctx.bound(format!("inputs: {} derived types; data items of every kind, and everything one edit (replace, insert, delete, duplicate, swap, wrap, rename a key to one sorting next to it) away from the encodings of {n} values of each type (of each variant for enums){}", list.len(), if ctx.thorough { ", two edits for the first values" } else { "" }));
    ctx.par(list.len(), true, |w, i| {
        let o = list[i];
        let k = match &o.ty {
            Ty::Enum(t) => n.max(t.variants.len().min(12)),
            _ => n,
        };
        for m in inputs(&o.ty, k, false) {
            w.case(&e, &o.name, &m.enc_raw());
        }
        if w.ctx.thorough {
            for m in inputs(&o.ty, 2, true) {
                w.case(&e, &o.name, &m.enc_raw());
            }
        }
    });
}

/// The encodings of some values of each type, decoded as other types.
fn others(ctx: &Ctx, p: &Prop) {
    let e = p.engine("others");
    let list = decoders();
    let mut all: Vec<Vec<u8>> = vec![];
    let mut seen = HashSet::new();
    for o in &reg().list {
        for d in dom(&o.ty, if ctx.thorough { 5 } else { 2 }) {
            let b = enc(&o.ty, &(o.norm)(&d)).enc_raw();
            if b.len() < 300 && seen.insert(b.clone()) {
                all.push(b);
            }
        }
    }
    ctx.bound(format!("others: {} encodings of values of any of the types, decoded as every one of the {} types", all.len(), list.len()));
    ctx.par(list.len(), false, |w, i| {
        for b in &all {
            w.case(&e, &list[i].name, b);
        }
    });
}

fn perms<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    if v.len() <= 1 {
        return vec![v.to_vec()];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        let mut rest = v.to_vec();
        let x = rest.remove(i);
        for mut p in perms(&rest) {
            p.insert(0, x.clone());
            out.push(p);
        }
    }
    out
}

/// All orders of few entries, some of many.
fn orders(v: &[(M, M)], all: usize) -> Vec<Vec<(M, M)>> {
    if v.len() <= all {
        return perms(v);
    }
    let mut s = v.to_vec();
    s.sort_by_cached_key(|e| e.0.enc());
    let mut out = vec![s.clone()];
    for k in 1..s.len().min(6) {
        let mut r = s.clone();
        r.rotate_left(k);
        out.push(r);
    }
    for k in 1..s.len().min(6) {
        let mut r = s.clone();
        r.swap(k - 1, k);
        out.push(r);
    }
    s.reverse();
    out.push(s);
    out
}

/// Undeclared keys, up to `per` between each two neighbours of the declared ones.
fn gaps(keys: &[M], per: usize) -> Vec<M> {
    let mut near = near_keys(keys);
    near.extend([M::U(1), M::U(2), M::U(23), M::U(24), M::U(25), M::U(1000), t("b"), t("c"), t("zzzz"), t("zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz"), M::N(500)]);
    near.retain(|k| !keys.contains(k) && k.depth() < 10);
    near.sort_by_cached_key(|k| k.enc());
    near.dedup();
    let mut bounds: Vec<Vec<u8>> = keys.iter().map(|k| k.enc().unwrap()).collect();
    bounds.sort();
    let slot = |k: &M| bounds.iter().filter(|b| **b < k.enc().unwrap()).count();
    let mut out: Vec<M> = vec![];
    for s in 0..=bounds.len() {
        let in_gap: Vec<&M> = near.iter().filter(|k| slot(k) == s).collect();
        // The outermost ones first.
        for (i, k) in in_gap.iter().enumerate() {
            let edge = i < per.div_ceil(2) || i + per / 2 >= in_gap.len();
            if edge {
                out.push((*k).clone());
            }
        }
    }
    out
}

/// Layouts with named entries inside a type: fields, and how to place a map of entries.
fn layouts(ty: &Ty) -> Vec<(Vec<FieldTy>, Vec<(M, M)>, Option<M>)> {
    match ty {
        Ty::Struct(s) if s.shape == Shape::Named && !s.as_array => vec![(s.fields.clone(), vec![], None)],
        Ty::Enum(e) => {
            let mut out = vec![];
            for v in &e.variants {
                let fields = match (&v.fields[..], v.newtype) {
                    ([f], true) => match &f.ty {
                        Ty::Struct(s) if s.shape == Shape::Named && !s.as_array => s.fields.clone(),
                        _ => continue,
                    },
                    _ if v.shape == Shape::Tuple || v.as_array => continue,
                    (fs, _) => fs.to_vec(),
                };
                match &e.tag {
                    Some(tag) => {
                        out.push((fields.clone(), vec![(tag.clone(), v.key.clone())], None));
                        out.push((fields, vec![], None));
                    }
                    None => out.push((fields, vec![], (!v.embed).then(|| v.key.clone()))),
                }
            }
            out
        }
        _ => vec![],
    }
}

fn field_value(f: &FieldTy, k: usize) -> M {
    let ds = dom(&f.ty, k + 1);
    let d = &ds[k.min(ds.len() - 1)];
    match &f.with {
        Some(c) => enc(&c.wire, &(c.enc)(d)),
        None => enc(&f.ty, d),
    }
}

fn subsets(ctx: &Ctx, p: &Prop) {
    let e = p.engine("subsets");
    let list = decoders();
    let thorough = ctx.thorough;
    ctx.bound("subsets: for every map layout, every subset of up to 6 declared entries (all but up to two for larger ones, neighbouring ones beyond 16), with no, one or two undeclared keys from every gap between the declared ones, in every order of up to 4 entries (5 if thorough) and rotations, swaps and the reverse of more");
    ctx.par(list.len(), true, |w, i| {
        let o = list[i];
        for (fields, fixed, wrap) in layouts(&o.ty) {
            let wire: Vec<&FieldTy> = fields.iter().filter(|f| !f.skip).collect();
            let mut keys: Vec<M> = wire.iter().map(|f| f.key.clone()).collect();
            keys.extend(fixed.iter().map(|x| x.0.clone()));
            let mut unknown = gaps(&keys, if keys.len() > 8 { 1 } else { 3 });
            // The keys of fields that are left out of the encoding, and their names.
            unknown.extend(fields.iter().filter(|f| f.skip).map(|f| f.key.clone()).filter(|k| !keys.contains(k)));
            unknown.dedup();
            let n = wire.len();
            if n > 30 {
                unknown = unknown.iter().step_by(unknown.len() / 8 + 1).cloned().collect();
            }
            let masks: Vec<Vec<bool>> = if n <= 6 {
                (0..1u32 << n).map(|m| (0..n).map(|k| m >> k & 1 == 1).collect()).collect()
            } else {
                let mut v = vec![vec![true; n], vec![false; n]];
                for a in 0..n {
                    v.push((0..n).map(|k| k == a).collect());
                    for b in if n > 16 { a.saturating_sub(1) } else { 0 }..=a {
                        v.push((0..n).map(|k| k != a && k != b).collect());
                    }
                }
                v
            };
            for mask in masks {
                let base: Vec<(M, M)> = (0..wire.len())
                    .filter(|k| mask[*k])
                    .map(|k| (wire[k].key.clone(), field_value(wire[k], 1 + k % 2)))
                    .chain(fixed.iter().cloned())
                    .collect();
                let emit = |w: &mut Worker, es: &[(M, M)]| {
                    for es in orders(es, if thorough { 5 } else { 4 }) {
                        let mut m = M::Map(es);
                        if let Some(k) = &wrap {
                            m = M::Map(vec![(k.clone(), m)]);
                        }
                        w.case(&e, &o.name, &m.enc_raw());
                    }
                };
                emit(w, &base);
                for (a, u) in unknown.iter().enumerate() {
                    let mut x = base.clone();
                    x.push((u.clone(), if a % 2 == 0 { M::U(1) } else { NULL }));
                    emit(w, &x);
                    if n > 8 && mask.contains(&false) {
                        continue;
                    }
                    for u2 in &unknown[..a] {
                        let mut x = x.clone();
                        x.push((u2.clone(), M::A(vec![])));
                        emit(w, &x);
                    }
                }
            }
        }
    });
}

/// Every key of an enum with the content of every variant.
fn forms(ctx: &Ctx, p: &Prop) {
    let e = p.engine("forms");
    let list = decoders();
    ctx.bound("forms: for every enum, every key, name, discriminant and tag value known to it or near one with the contents of every variant (and null, empty ones, scalars), in external, internal, bare, array and two-entry form");
    ctx.par(list.len(), true, |w, i| {
        let o = list[i];
        let Ty::Enum(t) = &o.ty else { return };
        let mut keys = vec![];
        type_keys(&o.ty, &mut keys);
        for v in &t.variants {
            keys.push(v.key.clone());
            keys.extend(v.discr.clone());
        }
        keys.sort();
        keys.dedup();
        keys.truncate(60);
        let mut wide = keys.clone();
        wide.extend(near_keys(&keys).into_iter().take(if keys.len() > 20 { 20 } else { 80 }));
        let mut contents = vec![NULL, UNDEF, M::U(0), M::U(7), t_("a"), M::A(vec![]), M::Map(vec![]), FALSE, M::B(vec![])];
        for (i, v) in t.variants.iter().enumerate().take(12) {
            for k in 0..3 {
                let vals: Vec<M> = v.fields.iter().filter(|f| !f.skip).map(|f| field_value(f, k)).collect();
                let named: Vec<(M, M)> = v.fields.iter().filter(|f| !f.skip).map(|f| f.key.clone()).zip(vals.iter().cloned()).collect();
                contents.push(M::A(vals.clone()));
                contents.push(M::Map(named));
                contents.extend(vals);
                if let Some(d) = dom(&o.ty, 60).into_iter().filter(|d| matches!(d, D::Var(j, _) if *j == i)).nth(k) {
                    contents.push(enc(&o.ty, &(o.norm)(&d)));
                }
            }
        }
        contents.sort();
        contents.dedup();
        let tag = t.tag.clone().unwrap_or_else(|| t_("v"));
        for k in &wide {
            w.case(&e, &o.name, &k.enc_raw());
            for c in &contents {
                let mut out = vec![M::Map(vec![(k.clone(), c.clone())]), M::A(vec![k.clone(), c.clone()])];
                for k2 in &keys[..keys.len().min(4)] {
                    out.push(M::Map(vec![(k.clone(), c.clone()), (k2.clone(), c.clone())]));
                }
                if let M::Map(es) = c {
                    let mut x = es.clone();
                    x.push((tag.clone(), k.clone()));
                    out.push(M::Map(x));
                    let mut x = es.clone();
                    x.insert(0, (tag.clone(), k.clone()));
                    out.push(M::Map(x));
                    out.push(M::Map(vec![(tag.clone(), k.clone()), (t_("content"), c.clone())]));
                }
                for m in out {
                    w.case(&e, &o.name, &m.enc_raw());
                }
            }
        }
        for c in &contents {
            w.case(&e, &o.name, &c.enc_raw());
            w.case(&e, &o.name, &M::A(vec![c.clone()]).enc_raw());
        }
    });
}
fn t_(s: &str) -> M {
    t(s)
}

/// Every way to put null or undefined at one place or two, or to leave out one map entry or two.
fn nullified(m: &M) -> Vec<M> {
    fn once(m: &M, f: &mut dyn FnMut(M)) {
        f(NULL);
        f(UNDEF);
        match m {
            M::A(a) if a.len() <= 30 => {
                for i in 0..a.len() {
                    once(&a[i], &mut |x| {
                        let mut b = a.clone();
                        b[i] = x;
                        f(M::A(b))
                    });
                    let mut b = a.clone();
                    b.remove(i);
                    f(M::A(b));
                }
            }
            M::Map(e) if e.len() <= 30 => {
                for i in 0..e.len() {
                    once(&e[i].1, &mut |x| {
                        let mut b = e.clone();
                        b[i].1 = x;
                        f(M::Map(b))
                    });
                    let mut b = e.clone();
                    b.remove(i);
                    f(M::Map(b));
                }
            }
            _ => {}
        }
    }
    let mut first = vec![];
    once(m, &mut |x| first.push(x));
    let mut out = first.clone();
    if first.len() <= 40 {
        for x in &first {
            once(x, &mut |y| out.push(y));
        }
    }
    out.sort();
    out.dedup();
    out
}

fn explore_nulls(ctx: &Ctx, p: &Prop) {
    let (top, parts, om, ab) = (p.engine("top"), p.engine("parts"), p.engine("omission"), p.engine("absent"));
    let reg = reg();
    let n = if ctx.thorough { 40 } else { 16 };
    let nv = if ctx.thorough { 4000 } else { 400 };
    ctx.bound(format!("top: null and undefined as each of {} standard and derived types, through every entry point", reg.list.len()));
    ctx.bound(format!("parts: the encodings of up to {n} values of each type (of each variant) with null or undefined at any one or two places, or one or two entries or elements left out; and every map field kept, null, undefined or absent in all combinations (up to 6 fields)"));
    ctx.bound(format!("omission, absent: up to {nv} values of each type as optional content, encoded and decoded"));
    ctx.par(reg.list.len(), true, |w, i| {
        let o = &reg.list[i];
        if o.enc.is_some() {
            for d in dom(&o.ty, nv) {
                w.case(&om, &o.name, &d_bytes(&d));
                w.case(&ab, &o.name, &d_bytes(&d));
            }
        }
        if o.dec.is_none() {
            return;
        }
        for m in [NULL, UNDEF] {
            w.case(&top, &o.name, &m.enc_raw());
        }
        let k = match &o.ty {
            Ty::Enum(t) => n.max(t.variants.len() * 2),
            _ => n,
        };
        for d in dom(&o.ty, k) {
            for m in nullified(&enc(&o.ty, &(o.norm)(&d))) {
                w.case(&parts, &o.name, &m.enc_raw());
            }
        }
        for (fields, fixed, wrap) in layouts(&o.ty) {
            let wire: Vec<&FieldTy> = fields.iter().filter(|f| !f.skip).collect();
            if wire.len() > 6 {
                continue;
            }
            for mut code in 0..4usize.pow(wire.len() as u32) {
                let mut es = fixed.clone();
                for f in &wire {
                    match code % 4 {
                        0 => es.push((f.key.clone(), field_value(f, 1))),
                        1 => es.push((f.key.clone(), NULL)),
                        2 => es.push((f.key.clone(), UNDEF)),
                        _ => {}
                    }
                    code /= 4;
                }
                let mut m = M::Map(es);
                if let Some(k) = &wrap {
                    m = M::Map(vec![(k.clone(), m)]);
                }
                w.case(&parts, &o.name, &m.enc_raw());
            }
        }
    });
}

/// Whether the type is declared to encode as a map: yes, no, or not to be said.
fn declared_map(ty: &Ty) -> Option<bool> {
    match ty {
        Ty::Map(..) => Some(true),
        Ty::Struct(s) => {
            if s.transparent {
                None
            } else {
                Some(s.shape == Shape::Named && !s.as_array)
            }
        }
        Ty::Enum(e) => {
            if e.untagged || e.variants.iter().any(|v| v.skip || v.embed) {
                return None;
            }
            Some(e.variants.iter().all(|v| v.shape != Shape::Unit || v.as_struct || e.tag.is_some()))
        }
        _ => Some(false),
    }
}

fn marker_case(arg: &str, _: &[u8]) -> Out {
    let o = reg().get(arg);
    match (declared_map(&o.ty), o.map.is_some()) {
        (Some(true), false) => Err(format!("{arg} always encodes to a map but is not marked so")),
        (Some(false), true) => Err(format!("{arg} is marked as encoding to a map but need not")),
        (_, true) => Ok("marked"),
        (_, false) => Ok("not marked"),
    }
}

fn map_case(arg: &str, b: &[u8]) -> Out {
    let o = reg().get(arg);
    let d = (o.norm)(&bytes_d(b));
    let Some(f) = &o.map else { return Ok("not marked") };
    let want = enc(&o.ty, &d);
    let plain = (o.e().value)(&d);
    let got = from_value(&plain)?;
    if !matches!(got, M::Map(_)) {
        return Err(format!("{} of {arg} is marked as encoding to a map but encodes to {}", show_d(&d), show(&got)));
    }
    let same = |g: &M, what: &str| {
        if g.canon() == want.canon() {
            Ok(())
        } else {
            Err(format!("{what} of {} of {arg} gives {} instead of {}", show_d(&d), show(g), show(&want)))
        }
    };
    same(&got, "into_cbor_value")?;
    same(&from_value(&(f.value_map)(&d))?, "into_cbor_value_map")?;
    let entries: Result<Vec<(M, M)>, String> = (f.entries)(&d).iter().map(|(k, v)| Ok((from_value(k)?, from_value(v)?))).collect();
    same(&M::Map(entries?), "into_cbor_map")?;
    Ok("map")
}

/// Values that encode to no map though their type carries the marker, a known weakness; only the
/// first ones of a few types are tried.
fn excepted(ty: &Ty, d: &D) -> bool {
    match (ty, d) {
        (Ty::Enum(e), D::Var(i, _)) => {
            let v = &e.variants[*i];
            v.skip || (v.embed && !matches!(enc(ty, d), M::Map(_)))
        }
        _ => false,
    }
}

fn explore_maps(ctx: &Ctx, p: &Prop) {
    let (c, e, x) = (p.engine("carriers"), p.engine("values"), p.engine("exceptions"));
    let reg = reg();
    let n = if ctx.thorough { 10000 } else { 2000 };
    ctx.bound(format!("carriers: the marker's presence on each of {} standard and derived types", reg.list.len()));
    ctx.bound(format!("values: up to {n} values of each marked type, except those of skipped variants and of embedded enums' variants that encode to no map"));
    ctx.bound("exceptions: the first value of each skipped or embedded variant of four types");
    ctx.par(reg.list.len(), true, |w, i| {
        let o = &reg.list[i];
        w.case(&c, &o.name, &[]);
        if o.map.is_none() {
            return;
        }
        for d in dom(&o.ty, n) {
            if !excepted(&o.ty, &(o.norm)(&d)) {
                w.case(&e, &o.name, &d_bytes(&d));
            }
        }
        if EXCEPTIONS.contains(&o.name.as_str()) {
            let mut seen = HashSet::new();
            for d in dom(&o.ty, 30) {
                let D::Var(v, _) = &d else { continue };
                if excepted(&o.ty, &d) && seen.insert(*v) {
                    w.case(&x, &o.name, &d_bytes(&d));
                }
            }
        }
    });
}
const EXCEPTIONS: [&str; 4] = ["e.E_NU8_SUnit", "e.E_Named_SNew", "e.E_Tup_EmA", "e.E_EmX_NStr"];
