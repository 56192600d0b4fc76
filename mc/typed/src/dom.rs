//! Finite domains of dynamic values and of decoding inputs.
use std::collections::HashSet;

use mccore::model::*;
use mccore::valgen;

use crate::schema::*;

/// Self-describing form of a dynamic value, for replay files.
pub fn d_to_m(d: &D) -> M {
    let seq = |v: &[D]| M::A(v.iter().map(d_to_m).collect());
    match d {
        D::Int(n) => int(*n),
        D::Big(n) => tag(1, M::B(n.to_be_bytes().to_vec())),
        D::Bool(b) => if *b { TRUE } else { FALSE },
        D::Char(c) => tag(2, M::U(*c as u64)),
        D::Str(s) => M::T(s.clone()),
        D::Bytes(b) => M::B(b.clone()),
        D::Seq(v) => seq(v),
        D::Map(m) => M::Map(m.iter().map(|(k, v)| (d_to_m(k), d_to_m(v))).collect()),
        D::Unit => UNDEF,
        D::None => NULL,
        D::Some(d) => tag(4, d_to_m(d)),
        D::Val(m) => tag(5, m.clone()),
        D::Var(i, v) => tag(6, M::A(vec![M::U(*i as u64), seq(v)])),
    }
}

pub fn m_to_d(m: &M) -> D {
    let seq = |v: &[M]| v.iter().map(m_to_d).collect();
    match m {
        M::U(_) | M::N(_) => D::Int(m_int(m).unwrap()),
        M::B(b) => D::Bytes(b.clone()),
        M::T(s) => D::Str(s.clone()),
        M::A(v) => D::Seq(seq(v)),
        M::Map(m) => D::Map(m.iter().map(|(k, v)| (m_to_d(k), m_to_d(v))).collect()),
        M::S(20) => D::Bool(false),
        M::S(21) => D::Bool(true),
        M::S(22) => D::None,
        M::S(_) => D::Unit,
        M::Tag(n, m) => match (n, &**m) {
            (1, M::B(b)) => D::Big(u128::from_be_bytes(b[..].try_into().unwrap())),
            (2, M::U(c)) => D::Char(char::from_u32(*c as u32).unwrap()),
            (4, m) => D::Some(Box::new(m_to_d(m))),
            (5, m) => D::Val(m.clone()),
            (6, M::A(v)) => match &v[..] {
                [M::U(i), M::A(f)] => D::Var(*i as usize, seq(f)),
                _ => panic!(),
            },
            _ => panic!(),
        },
    }
}

pub fn d_bytes(d: &D) -> Vec<u8> {
    d_to_m(d).enc_raw()
}
pub fn bytes_d(b: &[u8]) -> D {
    m_to_d(&Dec::run(false, None, b).expect("case"))
}
pub fn bytes_m(b: &[u8]) -> M {
    Dec::run(false, None, b).expect("case")
}
pub fn show_d(d: &D) -> String {
    let s = format!("{d:?}");
    if s.len() > 300 { format!("{}…", s.chars().take(300).collect::<String>()) } else { s }
}

fn ints(ty: &Ty, n: usize) -> Vec<i128> {
    let mut v: Vec<i128> = vec![0, 1, -1];
    let (lo, hi) = match ty {
        Ty::Uint(b) => (0, (1i128 << b) - 1),
        // What CBOR can hold.
        Ty::Int(128) => (-(1i128 << 64), (1i128 << 64) - 1),
        Ty::Int(b) => (-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1),
        _ => unreachable!(),
    };
    v.extend([hi, lo, 23, 24, -24, -25, 255, 256, -256, -257, 65535, 65536, -65536, -65537]);
    v.extend([hi - 1, lo + 1, 2, 3, -2, 127, 128, -128, -129]);
    v.extend([0xffff_ffff, 0x1_0000_0000, -0x1_0000_0000, -0x1_0000_0001]);
    for k in 5..64 {
        for d in -1..=1 {
            v.push((1i128 << k) + d);
            v.push(-(1i128 << k) + d);
        }
    }
    if hi - lo < 300 {
        v.extend(lo..=hi);
    } else if n > 2000 {
        v.extend(-300..300);
    }
    finish(v.into_iter().filter(|n| *n >= lo && *n <= hi).collect(), n)
}

fn finish<T: Clone + Eq + std::hash::Hash>(v: Vec<T>, n: usize) -> Vec<T> {
    let mut seen = HashSet::new();
    let mut out = vec![];
    for x in v {
        if out.len() >= n {
            break;
        }
        if seen.insert(x.clone()) {
            out.push(x);
        }
    }
    out
}

/// Every tuple that differs from one of the base tuples in at most two places, or the whole
/// product if it is small.
pub fn product(doms: &[Vec<D>], n: usize) -> Vec<Vec<D>> {
    if doms.iter().any(|d| d.is_empty()) {
        return vec![];
    }
    let total = doms.iter().try_fold(1usize, |a, d| a.checked_mul(d.len()).filter(|x| *x <= n));
    if let Some(total) = total {
        return (0..total)
            .map(|mut i| {
                doms.iter()
                    .map(|d| {
                        let x = d[i % d.len()].clone();
                        i /= d.len();
                        x
                    })
                    .collect()
            })
            .collect();
    }
    let base = |k: usize| -> Vec<D> { doms.iter().map(|d| d[k.min(d.len() - 1)].clone()).collect() };
    let mut out = vec![base(0), base(1), base(2)];
    for k in 0..2 {
        for (i, d) in doms.iter().enumerate() {
            for x in d {
                let mut b = base(k);
                b[i] = x.clone();
                out.push(b);
            }
        }
    }
    for i in 0..doms.len() {
        // Of very many places, neighbouring ones.
        for j in if doms.len() > 40 { i.saturating_sub(1) } else { 0 }..i {
            for x in doms[i].iter().take(8) {
                for y in doms[j].iter().take(8) {
                    let mut b = base(0);
                    b[i] = x.clone();
                    b[j] = y.clone();
                    out.push(b);
                }
            }
        }
    }
    finish(out, n)
}

fn fields(fs: &[FieldTy], n: usize) -> Vec<Vec<D>> {
    let k = if fs.len() <= 1 { n } else { (n as f64).powf(1.0 / fs.len() as f64).max(6.0) as usize };
    let doms: Vec<Vec<D>> = fs.iter().map(|f| dom(&f.ty, k.max(6))).collect();
    product(&doms, n)
}

/// Up to `n` values of the type, the boundary ones first. Sets are in no particular order.
pub fn dom(ty: &Ty, n: usize) -> Vec<D> {
    let small = |t: &Ty| dom(t, if n > 200 { 12 } else if n > 20 { 5 } else { 3 });
    let mut out: Vec<D> = vec![];
    match ty {
        Ty::Uint(_) | Ty::Int(_) => return ints(ty, n).into_iter().map(D::Int).collect(),
        Ty::U128 => {
            out.extend([0u128, 1, u128::MAX, 255, 256, u64::MAX as u128, 1 << 64, 1 << 127, 0xff00].map(D::Big));
            for k in 1..128 {
                for d in 0..3 {
                    out.push(D::Big((1u128 << k) + d - 1));
                }
            }
            for k in 0..16 {
                for b in [1u128, 0x80, 0xff, 0x5a] {
                    out.push(D::Big(b << (8 * k)));
                }
            }
        }
        Ty::Bool => out.extend([D::Bool(false), D::Bool(true)]),
        Ty::Char => {
            for c in ['\0', 'a', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{17}', '\u{18}', '\u{7f}', '\u{80}', '\u{ff}', '\u{100}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{1}'] {
                out.push(D::Char(c));
            }
            if n > 200 {
                out.extend((0..600).filter_map(char::from_u32).map(D::Char));
            }
        }
        Ty::Str => {
            out.extend(["", "a", "b", "é", "aa"].map(|s| D::Str(s.into())));
            out.extend(valgen::texts().into_iter().map(D::Str));
            for k in [23, 24, 255, 256] {
                if n > 12 {
                    out.push(D::Str("x".repeat(k)));
                }
            }
            if n > 200 {
                out.push(D::Str("水".repeat(22000)));
            }
        }
        Ty::Bytes | Ty::Buf => {
            out.extend([vec![], vec![0], vec![1], vec![0xff, 0], vec![0, 1]].map(D::Bytes));
            out.extend(valgen::byte_strings().into_iter().map(D::Bytes));
            if n > 12 {
                out.extend([255, 256].map(|k| D::Bytes(vec![7; k])));
            }
            if n > 200 {
                out.extend([65535, 65536].map(|k| D::Bytes(vec![7; k])));
                out.extend((0..=255).map(|b| D::Bytes(vec![b])));
            }
        }
        Ty::ByteArr(k) => {
            let k = *k;
            out.extend([0u8, 1, 0xff, 0x80].map(|b| D::Bytes(vec![b; k])));
            for i in 0..k {
                for b in [1, 0xff] {
                    let mut v = vec![0; k];
                    v[i] = b;
                    out.push(D::Bytes(v));
                }
            }
            out.push(D::Bytes((0..k).map(|i| i as u8 + 1).collect()));
        }
        Ty::Seq(t) => {
            let s = small(t);
            out.push(D::Seq(vec![]));
            out.extend(dom(t, n / 2).into_iter().map(|d| D::Seq(vec![d])).take(n / 3 + 2));
            for a in &s {
                for b in &s {
                    out.push(D::Seq(vec![a.clone(), b.clone()]));
                }
            }
            if n > 12 {
                let s = &s[..s.len().min(3)];
                for a in s {
                    for b in s {
                        for c in s {
                            out.push(D::Seq(vec![a.clone(), b.clone(), c.clone()]));
                        }
                    }
                }
                for k in [23, 24, 256] {
                    out.push(D::Seq((0..k).map(|i| s[i % s.len()].clone()).collect()));
                }
            }
        }
        Ty::Arr(t, k) => {
            let doms = vec![if *k == 1 { dom(t, n) } else { small(t) }; *k];
            out.extend(product(&doms, n).into_iter().map(D::Seq));
        }
        Ty::Tuple(ts) => {
            let k = (n as f64).powf(1.0 / ts.len() as f64).max(4.0) as usize;
            let doms: Vec<_> = ts.iter().map(|t| dom(t, k)).collect();
            out.extend(product(&doms, n).into_iter().map(D::Seq));
        }
        Ty::Opt(t) => {
            out.push(D::None);
            out.extend(dom(t, n).into_iter().map(|d| D::Some(Box::new(d))));
        }
        Ty::Set(t, _) => {
            out.push(D::Seq(vec![]));
            out.extend(dom(t, n / 3).into_iter().map(|d| D::Seq(vec![d])));
            let s = small(t);
            for i in 0..s.len() {
                for j in 0..i {
                    out.push(D::Seq(vec![s[i].clone(), s[j].clone()]));
                    for k in 0..j {
                        if n > 12 {
                            out.push(D::Seq(vec![s[i].clone(), s[j].clone(), s[k].clone()]));
                        }
                    }
                }
            }
            if n > 12 {
                out.push(D::Seq(s));
                let all = dom(t, 30);
                out.push(D::Seq(all));
            }
        }
        Ty::Map(k, v) => {
            out.push(D::Map(vec![]));
            let (ks, vs) = (small(k), small(v));
            for a in &ks {
                out.push(D::Map(vec![(a.clone(), vs[0].clone())]));
            }
            for a in dom(k, n / 4) {
                out.push(D::Map(vec![(a, vs[vs.len() - 1].clone())]));
            }
            for b in dom(v, n / 4) {
                out.push(D::Map(vec![(ks[0].clone(), b)]));
            }
            for i in 0..ks.len() {
                for j in 0..i {
                    for b in vs.iter().take(2) {
                        out.push(D::Map(vec![(ks[i].clone(), b.clone()), (ks[j].clone(), vs[0].clone())]));
                    }
                    for l in 0..j {
                        if n > 12 {
                            let e = |y: usize, x: usize| (ks[y].clone(), vs[x % vs.len()].clone());
                            out.push(D::Map(vec![e(i, 0), e(j, 1), e(l, 2)]));
                        }
                    }
                }
            }
            if n > 12 {
                let all = dom(k, 30);
                out.push(D::Map(all.into_iter().enumerate().map(|(i, k)| (k, vs[i % vs.len()].clone())).collect()));
            }
        }
        Ty::Unit => out.push(D::Unit),
        Ty::Val => {
            let u = M::U(0);
            out.extend([NULL, u.clone(), t("a"), M::A(vec![u.clone()]), M::Map(vec![(u.clone(), NULL)]), UNDEF, FALSE].map(D::Val));
            out.extend(valgen::keys().into_iter().filter(|m| *m == m.canon()).map(D::Val));
        }
        Ty::Own(k) => {
            let u = M::U(1);
            let first = [u.clone(), M::U(7), M::A(vec![u.clone()]), NULL, M::Map(vec![(t("a"), u)]), M::A(vec![]), UNDEF, M::U(5), t("a"), FALSE];
            let maps = [M::Map(vec![]), M::Map(vec![(t("a"), NULL)]), M::Map(vec![(M::U(0), M::U(7)), (t("zz"), M::A(vec![]))])];
            let all = first.into_iter().chain(maps).chain(valgen::keys());
            out.extend(all.filter(|m| *m == m.canon() && (*k != 4 || matches!(m, M::Map(_))) && crate::own::refused(m).is_none()).map(D::Val));
        }
        Ty::Struct(s) => {
            out.extend(fields(&s.fields, n).into_iter().map(D::Seq));
        }
        Ty::Enum(e) => {
            let per = (n / e.variants.len()).max(2);
            let all: Vec<Vec<D>> = e
                .variants
                .iter()
                .enumerate()
                .map(|(i, v)| fields(&v.fields, per).into_iter().map(|f| D::Var(i, f)).collect())
                .collect();
            // The first value of each variant first.
            for v in &all {
                out.extend(v.first().cloned());
            }
            out.extend(all.into_iter().flatten());
        }
        Ty::Rec(t) => {
            let depth = WITHIN.with(|c| c.get());
            if depth == 2 {
                return vec![std_default(ty)];
            }
            WITHIN.with(|c| c.set(depth + 1));
            out = dom(&unfold(*t), n);
            WITHIN.with(|c| c.set(depth));
            if depth == 0 {
                let k = out.len().min(n / 2);
                out.splice(k..k, [3, 6, 12].map(|k| chain(ty, k)));
            }
        }
    }
    finish(out, n)
}

thread_local!(static WITHIN: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });

/// A value of a type inside itself, `k` deep.
fn chain(ty: &Ty, k: usize) -> D {
    match ty {
        Ty::Rec(_) if k == 0 => std_default(ty),
        Ty::Rec(t) => match unfold(*t) {
            Ty::Struct(s) => D::Seq(chains(&s.fields, k - 1)),
            Ty::Enum(e) => {
                let i = e.variants.iter().rposition(|v| v.fields.iter().any(|f| inside(&f.ty))).unwrap();
                D::Var(i, chains(&e.variants[i].fields, k - 1))
            }
            _ => panic!(),
        },
        Ty::Seq(t) if inside(t) => D::Seq(vec![chain(t, k)]),
        Ty::Opt(t) if inside(t) => D::Some(Box::new(chain(t, k))),
        Ty::Map(a, t) if inside(t) => D::Map(vec![(std_default(a), chain(t, k))]),
        _ => std_default(ty),
    }
}
/// Deep in one of the fields.
fn chains(fields: &[FieldTy], k: usize) -> Vec<D> {
    let at = fields.iter().position(|f| inside(&f.ty));
    fields.iter().enumerate().map(|(i, f)| chain(&f.ty, if Some(i) == at { k } else { 0 })).collect()
}
fn inside(ty: &Ty) -> bool {
    match ty {
        Ty::Rec(_) => true,
        Ty::Seq(t) | Ty::Opt(t) | Ty::Map(_, t) => inside(t),
        _ => false,
    }
}

/// Whether the encoding determines the value. `field` tells whether null and undefined are decoded
/// to the default here.
pub fn lossless(ty: &Ty, d: &D, field: bool) -> bool {
    let fs = |fs: &[FieldTy], v: &[D]| {
        fs.iter().zip(v).all(|(f, d)| {
            f.skip
                || match &f.with {
                    Some(c) => lossless(&c.wire, &(c.enc)(d), true),
                    None => lossless(&f.ty, d, true),
                }
        })
    };
    match (ty, d) {
        (Ty::Val, D::Val(m)) => !(field && *m == UNDEF),
        (Ty::Own(k), D::Val(m)) => !(field && *k != 3 && is_null(m)),
        (Ty::Opt(t), D::Some(d)) => {
            let m = enc(t, d);
            m != NULL && !(field && m == UNDEF) && lossless(t, d, false)
        }
        (Ty::Seq(t) | Ty::Arr(t, _) | Ty::Set(t, _), D::Seq(v)) => v.iter().all(|d| lossless(t, d, false)),
        (Ty::Tuple(ts), D::Seq(v)) => ts.iter().zip(v).all(|(t, d)| lossless(t, d, false)),
        (Ty::Map(k, v), D::Map(m)) => m.iter().all(|(a, b)| lossless(k, a, false) && lossless(v, b, false)),
        // A struct declared without default does not accept null.
        (Ty::Struct(s), D::Seq(v)) => {
            fs(&s.fields, v) && !(field && s.default.is_none() && enc(ty, d) == NULL) && !(inner_own(ty) && is_null(&enc(ty, d)))
        }
        (Ty::Enum(e), D::Var(i, v)) => fs(&e.variants[*i].fields, v),
        (Ty::Rec(t), d) => lossless(&unfold(*t), d, field),
        _ => true,
    }
}

fn null_like() -> Vec<M> {
    let u = |n| M::U(n);
    vec![
        NULL,
        UNDEF,
        u(0),
        M::N(0),
        t("a"),
        M::B(vec![]),
        M::A(vec![]),
        M::Map(vec![]),
        FALSE,
        u(24),
        u(256),
        u(u64::MAX),
        M::N(128),
        M::N(u64::MAX),
        t(""),
        M::B(vec![1, 2]),
        M::A(vec![u(1)]),
        M::Map(vec![(t("a"), u(1))]),
        tag(1, u(1)),
        TRUE,
    ]
}

/// Keys that could be taken for one of the given ones.
pub fn near_keys(keys: &[M]) -> Vec<M> {
    let mut v = vec![M::U(0), M::U(u64::MAX), M::N(0), t(""), t("~~~"), M::B(vec![]), M::A(vec![]), M::Map(vec![]), tag(0, M::U(0)), FALSE, NULL, UNDEF];
    for k in keys {
        match k {
            M::T(s) => {
                v.push(M::T(format!("{s}_")));
                v.push(M::T(format!("_{s}")));
                v.push(M::T(s.to_uppercase()));
                if let Some((i, _)) = s.char_indices().last() {
                    v.push(t(&s[..i]));
                    v.push(t(&s[i..]));
                    // Just below and just above, at the same length.
                    let c = s[i..].chars().next().unwrap() as u32;
                    for d in [c.wrapping_sub(1), c + 1] {
                        if let Some(c) = char::from_u32(d) {
                            v.push(M::T(format!("{}{c}", &s[..i])));
                        }
                    }
                }
                v.push(M::B(s.clone().into_bytes()));
                v.push(M::A(vec![k.clone()]));
                v.push(tag(0, k.clone()));
            }
            M::U(n) => {
                v.push(M::U(n.wrapping_add(1)));
                v.push(M::U(n.wrapping_sub(1)));
                v.push(M::N(*n));
                v.push(M::T(n.to_string()));
                v.push(M::U(n.wrapping_add(24)));
                v.push(M::U(n.wrapping_add(256)));
            }
            _ => {}
        }
    }
    v.retain(|k| !keys.contains(k));
    v.sort();
    v.dedup();
    v
}

/// Data items one edit away. `keys`: the keys a map may hold.
pub fn edits(m: &M, keys: &[M]) -> Vec<M> {
    let mut out = null_like();
    let n = out.len();
    edit_into(m, keys, &mut |x| out.push(x), 0);
    let tail = out.split_off(n);
    out.extend(tail);
    out
}

fn edit_into(m: &M, keys: &[M], f: &mut dyn FnMut(M), depth: usize) {
    if depth > 3 {
        return;
    }
    match m {
        M::A(a) if a.len() <= 16 => {
            for i in 0..=a.len() {
                for x in [NULL, M::U(0), t("a"), UNDEF] {
                    let mut b = a.clone();
                    b.insert(i, x);
                    f(M::A(b));
                }
            }
            for i in 0..a.len() {
                let mut b = a.clone();
                b.remove(i);
                f(M::A(b));
                let mut b = a.clone();
                b.insert(i, a[i].clone());
                f(M::A(b));
                if i > 0 {
                    let mut b = a.clone();
                    b.swap(i - 1, i);
                    f(M::A(b));
                }
                for x in null_like() {
                    let mut b = a.clone();
                    b[i] = x;
                    f(M::A(b));
                }
                edit_into(&a[i], keys, &mut |x| {
                    let mut b = a.clone();
                    b[i] = x;
                    f(M::A(b))
                }, depth + 1);
            }
            f(M::Map(a.iter().enumerate().map(|(i, x)| (M::U(i as u64), x.clone())).collect()));
        }
        M::Map(e) if e.len() <= 16 => {
            let own: Vec<M> = e.iter().map(|x| x.0.clone()).collect();
            let mut all: Vec<M> = keys.to_vec();
            all.extend(own.iter().cloned());
            let near = near_keys(&all);
            for k in near.iter().chain(keys.iter()) {
                for (i, x) in [(0, NULL), (e.len(), M::U(1))] {
                    let mut b = e.clone();
                    b.insert(i, (k.clone(), x));
                    f(M::Map(b));
                }
            }
            for i in 0..e.len() {
                let mut b = e.clone();
                b.remove(i);
                f(M::Map(b));
                for x in [e[i].1.clone(), NULL, M::U(1)] {
                    let mut b = e.clone();
                    b.push((e[i].0.clone(), x));
                    f(M::Map(b));
                }
                for j in 0..i {
                    let mut b = e.clone();
                    b.swap(i, j);
                    f(M::Map(b));
                    // The values exchanged.
                    let mut b = e.clone();
                    b[i].1 = e[j].1.clone();
                    b[j].1 = e[i].1.clone();
                    f(M::Map(b));
                }
                for k in near.iter() {
                    let mut b = e.clone();
                    b[i].0 = k.clone();
                    f(M::Map(b));
                }
                for x in null_like() {
                    let mut b = e.clone();
                    b[i].1 = x;
                    f(M::Map(b));
                }
                edit_into(&e[i].1, keys, &mut |x| {
                    let mut b = e.clone();
                    b[i].1 = x;
                    f(M::Map(b))
                }, depth + 1);
            }
            f(M::A(e.iter().map(|x| x.1.clone()).collect()));
            f(M::A(e.iter().flat_map(|x| [x.0.clone(), x.1.clone()]).collect()));
            if e.len() == 1 {
                f(e[0].1.clone());
                f(e[0].0.clone());
            }
        }
        M::B(b) if b.len() <= 40 => {
            let mut c = b.clone();
            c.push(0);
            f(M::B(c));
            let mut c = b.clone();
            c.insert(0, 0);
            f(M::B(c));
            if !b.is_empty() {
                f(M::B(b[1..].to_vec()));
            }
            f(M::A(b.iter().map(|x| M::U(*x as u64)).collect()));
            if let Ok(s) = String::from_utf8(b.clone()) {
                f(M::T(s));
            }
        }
        M::T(s) => {
            f(M::B(s.clone().into_bytes()));
            f(M::T(format!("{s}a")));
            f(M::Map(vec![(m.clone(), NULL)]));
            f(M::Map(vec![(m.clone(), M::Map(vec![]))]));
            f(M::Map(vec![(m.clone(), M::A(vec![]))]));
        }
        M::U(n) => {
            f(M::N(*n));
            f(M::U(n.wrapping_add(1)));
            f(M::U(n.wrapping_sub(1)));
            for k in [8, 16, 32] {
                f(M::U(n.wrapping_add(1 << k)));
            }
            f(M::B(n.to_be_bytes().to_vec()));
        }
        M::N(n) => {
            f(M::U(*n));
            f(M::N(n.wrapping_add(1)));
            for k in [8, 16, 32, 63] {
                f(M::N(n.wrapping_add(1 << k)));
            }
        }
        _ => {}
    }
    if depth == 0 {
        f(M::A(vec![m.clone()]));
        f(M::A(vec![m.clone(), m.clone()]));
        f(tag(0, m.clone()));
        f(M::Map(vec![(m.clone(), NULL)]));
        f(M::Map(vec![(NULL, m.clone())]));
    }
}

/// Every key that the type, or one inside it, names.
pub fn type_keys(ty: &Ty, out: &mut Vec<M>) {
    let fs = |fs: &[FieldTy], out: &mut Vec<M>| {
        for f in fs {
            out.push(f.key.clone());
            type_keys(&f.ty, out);
        }
    };
    match ty {
        Ty::Seq(t) | Ty::Arr(t, _) | Ty::Opt(t) | Ty::Set(t, _) => type_keys(t, out),
        Ty::Tuple(ts) => ts.iter().for_each(|t| type_keys(t, out)),
        Ty::Map(k, v) => {
            type_keys(k, out);
            type_keys(v, out);
        }
        Ty::Struct(s) => fs(&s.fields, out),
        Ty::Enum(e) => {
            out.extend(e.tag.clone());
            for v in &e.variants {
                out.push(v.key.clone());
                out.extend(v.discr.clone());
                fs(&v.fields, out);
            }
        }
        _ => {}
    }
}

fn dedup(v: Vec<M>) -> Vec<M> {
    let n = v.len();
    finish(v, n)
}

/// Data items to decode as the type: fixed ones of every kind, the encodings of values of the
/// type, and everything one edit away from those (two edits away if `deep`).
pub fn inputs(ty: &Ty, values: usize, deep: bool) -> Vec<M> {
    let mut keys = vec![];
    type_keys(ty, &mut keys);
    keys.sort();
    keys.dedup();
    let mut out = valgen::keys();
    out.extend(valgen::trees(3, &[M::U(0), NULL, t("a")], &[1]));
    for k in &keys {
        out.push(k.clone());
        for x in null_like() {
            out.push(M::Map(vec![(k.clone(), x)]));
        }
    }
    let many = keys.len() > 100;
    for (i, a) in keys.iter().enumerate() {
        for (j, b) in keys.iter().enumerate() {
            if many && i.abs_diff(j) > 1 && i % 64 != 0 && j % 64 != 0 {
                continue;
            }
            for x in [NULL, M::U(0), t("a")] {
                out.push(M::Map(vec![(a.clone(), x), (b.clone(), M::U(0))]));
            }
            out.push(M::Map(vec![(a.clone(), b.clone())]));
        }
    }
    for d in dom(ty, if many { values.min(4) } else { values }) {
        let m = enc(ty, &d);
        let es = edits(&m, &keys);
        if deep {
            for e in es.iter().take(400) {
                out.extend(edits(e, &keys).into_iter().take(600));
            }
        }
        out.push(m);
        out.extend(es);
    }
    dedup(out)
}
