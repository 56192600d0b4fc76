//! Reference semantics of the serde layer, over the same dynamic data and type descriptions.
use mccore::explore::step;
use mccore::model::*;

use mctyped::schema::*;

fn kept(f: &FieldTy, d: &D) -> bool {
    !f.skip && !f.skip_if.as_ref().map_or(false, |p| p(d))
}

fn map_of(fields: &[FieldTy], v: &[D]) -> M {
    M::Map(fields.iter().zip(v).filter(|(f, d)| kept(f, d)).map(|(f, d)| (f.key.clone(), senc(&f.ty, d))).collect())
}
fn array_of(fields: &[FieldTy], v: &[D]) -> M {
    M::A(fields.iter().zip(v).filter(|(f, _)| !f.skip).map(|(f, d)| senc(&f.ty, d)).collect())
}

/// Encoding, with map entries in no particular order.
pub fn senc(ty: &Ty, d: &D) -> M {
    step(1);
    match (ty, d) {
        (Ty::Bytes | Ty::ByteArr(_), D::Bytes(b)) => M::A(b.iter().map(|b| M::U(*b as u64)).collect()),
        (Ty::Buf, D::Bytes(b)) => M::B(b.clone()),
        (Ty::Seq(t) | Ty::Arr(t, _) | Ty::Set(t, _), D::Seq(v)) => M::A(v.iter().map(|d| senc(t, d)).collect()),
        (Ty::Tuple(ts), D::Seq(v)) => M::A(ts.iter().zip(v).map(|(t, d)| senc(t, d)).collect()),
        (Ty::Opt(_), D::None) => NULL,
        (Ty::Opt(t), D::Some(d)) => senc(t, d),
        (Ty::Map(k, v), D::Map(m)) => M::Map(m.iter().map(|(a, b)| (senc(k, a), senc(v, b))).collect()),
        (Ty::Struct(s), D::Seq(v)) => match s.shape {
            Shape::Unit => NULL,
            _ if s.transparent => senc(&s.fields[0].ty, &v[0]),
            Shape::Tuple => array_of(&s.fields, v),
            Shape::Named => map_of(&s.fields, v),
        },
        (Ty::Enum(e), D::Var(i, v)) => {
            let var = &e.variants[*i];
            let content = match var.shape {
                Shape::Unit => return var.key.clone(),
                Shape::Tuple if var.newtype => senc(&var.fields[0].ty, &v[0]),
                Shape::Tuple => array_of(&var.fields, v),
                Shape::Named => map_of(&var.fields, v),
            };
            M::Map(vec![(var.key.clone(), content)])
        }
        (Ty::Rec(t), d) => senc(&unfold(*t), d),
        _ => enc(ty, d),
    }
}

/// Whether the encoding determines the value.
pub fn slossless(ty: &Ty, d: &D) -> bool {
    let fs = |fs: &[FieldTy], v: &[D]| fs.iter().zip(v).all(|(f, d)| f.skip || slossless(&f.ty, d));
    match (ty, d) {
        (Ty::Opt(t), D::Some(d)) => senc(t, d) != NULL && slossless(t, d),
        (Ty::Seq(t) | Ty::Arr(t, _) | Ty::Set(t, _), D::Seq(v)) => v.iter().all(|d| slossless(t, d)),
        (Ty::Tuple(ts), D::Seq(v)) => ts.iter().zip(v).all(|(t, d)| slossless(t, d)),
        (Ty::Map(k, v), D::Map(m)) => m.iter().all(|(a, b)| slossless(k, a) && slossless(v, b)),
        (Ty::Struct(s), D::Seq(v)) => fs(&s.fields, v),
        (Ty::Enum(e), D::Var(i, v)) => fs(&e.variants[*i].fields, v),
        (Ty::Rec(t), d) => slossless(&unfold(*t), d),
        _ => true,
    }
}

/// The value with skipped fields at their default.
pub fn sback(ty: &Ty, d: &D) -> D {
    let fs = |fs: &[FieldTy], v: &[D]| fs.iter().zip(v).map(|(f, d)| if f.skip { std_default(&f.ty) } else { sback(&f.ty, d) }).collect();
    match (ty, d) {
        (Ty::Opt(t), D::Some(d)) => D::Some(Box::new(sback(t, d))),
        (Ty::Seq(t) | Ty::Arr(t, _) | Ty::Set(t, _), D::Seq(v)) => D::Seq(v.iter().map(|d| sback(t, d)).collect()),
        (Ty::Tuple(ts), D::Seq(v)) => D::Seq(ts.iter().zip(v).map(|(t, d)| sback(t, d)).collect()),
        (Ty::Map(k, v), D::Map(m)) => D::Map(m.iter().map(|(a, b)| (sback(k, a), sback(v, b))).collect()),
        (Ty::Struct(s), D::Seq(v)) => D::Seq(fs(&s.fields, v)),
        (Ty::Enum(e), D::Var(i, v)) => D::Var(*i, fs(&e.variants[*i].fields, v)),
        (Ty::Rec(t), d) => sback(&unfold(*t), d),
        _ => d.clone(),
    }
}

/// Data that is not looked at.
fn ignored(m: &M) -> R {
    // Whether unsupported data is rejected even there is not specified.
    fn odd(m: &M) -> bool {
        match m {
            M::Tag(..) => true,
            M::N(n) => *n > i64::MAX as u64,
            M::A(a) => a.iter().any(odd),
            M::Map(e) => e.iter().any(|e| odd(&e.0) || odd(&e.1)),
            _ => false,
        }
    }
    if odd(m) { R::Free } else { R::Ok(D::Unit) }
}

fn err(r: R) -> R {
    match r {
        R::Err(_) => R::Err(ANY),
        r => r,
    }
}

fn fields_of_array(fields: &[FieldTy], m: &M) -> Parts {
    let M::A(a) = m else { return Parts::Err(ANY) };
    if a.len() != fields.iter().filter(|f| !f.skip).count() {
        return Parts::Err(ANY);
    }
    let mut it = a.iter();
    all(fields.iter().map(|f| if f.skip { R::Ok(std_default(&f.ty)) } else { sdec(&f.ty, it.next().unwrap()) }))
}

fn fields_of_map(fields: &[FieldTy], m: &M) -> Parts {
    let M::Map(es) = m else { return Parts::Err(ANY) };
    // Keys other than text may be taken as the number of a field.
    if es.iter().any(|e| !matches!(e.0, M::T(_))) {
        return Parts::Free;
    }
    let wire: Vec<&FieldTy> = fields.iter().filter(|f| !f.skip).collect();
    let mut free = false;
    for (i, (k, v)) in es.iter().enumerate() {
        if wire.iter().any(|f| f.key == *k) {
            if es[..i].iter().any(|e| e.0 == *k) {
                return Parts::Err(ANY);
            }
        } else {
            free |= ignored(v) == R::Free;
        }
    }
    let p = all(fields.iter().map(|f| {
        if f.skip {
            return R::Ok(std_default(&f.ty));
        }
        match es.iter().find(|e| e.0 == f.key) {
            Some((_, m)) => sdec(&f.ty, m),
            None if f.optional => R::Ok(std_default(&f.ty)),
            None => match f.ty {
                Ty::Opt(_) => R::Ok(D::None),
                _ => R::Err(ANY),
            },
        }
    }));
    match p {
        Parts::Ok(_) if free => Parts::Free,
        p => p,
    }
}

pub fn sdec(ty: &Ty, m: &M) -> R {
    step(1);
    match ty {
        Ty::Rec(t) => sdec(&unfold(*t), m),
        Ty::Uint(_) | Ty::Int(_) | Ty::Bool | Ty::Char | Ty::Unit | Ty::U128 => err(dec(ty, m)),
        Ty::Str => match m {
            M::T(s) => R::Ok(D::Str(s.clone())),
            M::B(b) if std::str::from_utf8(b).is_ok() => R::Free,
            _ => R::Err(ANY),
        },
        Ty::Buf => match m {
            M::B(b) => R::Ok(D::Bytes(b.clone())),
            M::T(_) | M::A(_) => R::Free,
            _ => R::Err(ANY),
        },
        Ty::Bytes | Ty::ByteArr(_) => {
            let M::A(a) = m else { return R::Err(ANY) };
            let mut out = vec![];
            for m in a {
                match m {
                    M::U(n) if *n < 256 => out.push(*n as u8),
                    _ => return R::Err(ANY),
                }
            }
            match ty {
                Ty::ByteArr(n) if out.len() != *n => R::Err(ANY),
                _ => R::Ok(D::Bytes(out)),
            }
        }
        Ty::Seq(t) | Ty::Arr(t, _) | Ty::Set(t, _) => {
            let M::A(a) = m else { return R::Err(ANY) };
            if let Ty::Arr(_, n) = ty {
                if *n != a.len() {
                    return R::Err(ANY);
                }
            }
            all(a.iter().map(|m| sdec(t, m))).map(|mut v| {
                if let Ty::Set(..) = ty {
                    v.sort();
                    v.dedup();
                }
                D::Seq(v)
            })
        }
        Ty::Tuple(ts) => match m {
            M::A(a) if a.len() == ts.len() => all(ts.iter().zip(a).map(|(t, m)| sdec(t, m))).map(D::Seq),
            _ => R::Err(ANY),
        },
        Ty::Opt(t) => match m {
            _ if *m == NULL => R::Ok(D::None),
            _ => match sdec(t, m) {
                R::Ok(d) => R::Ok(D::Some(Box::new(d))),
                r => r,
            },
        },
        Ty::Map(k, v) => {
            let M::Map(es) = m else { return R::Err(ANY) };
            let ks = all(es.iter().map(|e| sdec(k, &e.0)));
            let vs = all(es.iter().map(|e| sdec(v, &e.1)));
            match (ks, vs) {
                (Parts::Ok(a), Parts::Ok(b)) => {
                    let mut out: Vec<(D, D)> = a.into_iter().zip(b).collect();
                    out.sort();
                    if out.windows(2).any(|w| w[0].0 == w[1].0) {
                        R::Free
                    } else {
                        R::Ok(D::Map(out))
                    }
                }
                (Parts::Err(_), _) | (_, Parts::Err(_)) => R::Err(ANY),
                _ => R::Free,
            }
        }
        Ty::Struct(s) => match s.shape {
            Shape::Unit => match dec(&Ty::Unit, m) {
                R::Ok(_) => R::Ok(D::Seq(vec![])),
                _ => R::Err(ANY),
            },
            _ if s.transparent => match sdec(&s.fields[0].ty, m) {
                R::Ok(d) => R::Ok(D::Seq(vec![d])),
                r => r,
            },
            Shape::Tuple => fields_of_array(&s.fields, m).map(D::Seq),
            Shape::Named => fields_of_map(&s.fields, m).map(D::Seq),
        },
        Ty::Enum(e) => {
            let (k, content) = match m {
                M::T(_) => (m, None),
                M::Map(es) if es.len() == 1 => (&es[0].0, Some(&es[0].1)),
                _ => return R::Err(ANY),
            };
            // Other keys may be taken as the number or name of a variant.
            if !matches!(k, M::T(_)) {
                return R::Free;
            }
            let Some(i) = e.variants.iter().position(|v| v.key == *k) else { return R::Err(ANY) };
            let v = &e.variants[i];
            let r = match (v.shape, content) {
                (Shape::Unit, None) => Parts::Ok(vec![]),
                (Shape::Unit, Some(m)) if *m == NULL => Parts::Free,
                (Shape::Unit, Some(_)) => Parts::Err(ANY),
                (Shape::Tuple, None) if v.newtype => match sdec(&v.fields[0].ty, &NULL) {
                    R::Err(_) => Parts::Err(ANY),
                    _ => Parts::Free,
                },
                (_, None) => Parts::Err(ANY),
                (Shape::Tuple, Some(m)) if v.newtype => all([sdec(&v.fields[0].ty, m)].into_iter()),
                (Shape::Tuple, Some(m)) => fields_of_array(&v.fields, m),
                (Shape::Named, Some(m)) => fields_of_map(&v.fields, m),
            };
            match r.map(|f| D::Var(i, f)) {
                R::Err(_) => R::Err(ANY),
                r => r,
            }
        }
        Ty::Val | Ty::Own(_) => panic!("not a serde type"),
    }
}
