//! Checks of one type's operations against the reference.
use std::collections::HashMap;

use mccore::model::*;

use crate::dom::*;
use crate::schema::*;
use crate::subj::*;

pub struct Reg {
    pub list: Vec<Ops>,
    index: HashMap<String, usize>,
}
impl Reg {
    pub fn new(list: Vec<Ops>) -> Reg {
        let mut index = HashMap::new();
        for (i, o) in list.iter().enumerate() {
            if index.insert(o.name.clone(), i).is_some() {
                panic!("type {} listed twice", o.name);
            }
        }
        Reg { list, index }
    }
    pub fn get(&self, name: &str) -> &Ops {
        &self.list[*self.index.get(name).unwrap_or_else(|| panic!("no type {name}"))]
    }
}

pub type Out = Result<&'static str, String>;

pub fn show_res(r: &Res) -> String {
    match r {
        Ok(d) => show_d(d),
        Err(e) => format!("error {}", derrs_names(*e)),
    }
}

/// Whether an outcome is one the reference allows.
pub fn agrees(o: &Ops, want: &R, got: &Res, what: &str, m: &M) -> Result<(), String> {
    match (want, got) {
        (R::Free, _) => Ok(()),
        (R::Ok(w), Ok(g)) if (o.norm)(w) == *g => Ok(()),
        (R::Err(w), Err(g)) if w & g != 0 => Ok(()),
        (R::Ok(w), g) => Err(format!("{what} of {} as {} gives {} instead of {}", show(m), o.name, show_res(g), show_d(w))),
        (R::Err(w), g) => Err(format!("{what} of {} as {} gives {} instead of error {}", show(m), o.name, show_res(g), derrs_names(*w))),
    }
}

pub fn class(r: &R) -> &'static str {
    match r {
        R::Ok(_) => "accept",
        R::Free => "unspecified",
        R::Err(e) => match *e {
            TYPE => "reject: type",
            SIZE => "reject: integer size",
            UNKNOWN => "reject: unknown field",
            MISSING => "reject: missing field",
            _ => "reject: several reasons or any",
        },
    }
}

/// Decoding of a data item through every entry point.
pub fn decode(o: &Ops, m: &M) -> Out {
    let want = dec_default(&o.ty, m);
    let f = o.d();
    agrees(o, &want, &(f.from_value)(to_value(m)), "decoding", m)?;
    agrees(o, &want, &(f.try_from_default)(to_value(m)), "decoding with default", m)?;
    agrees(o, &dec(&o.ty, m), &(f.try_from)(to_value(m)), "decoding without default", m)?;
    if m.depth() <= 64 {
        let raw = m.enc_raw();
        agrees(o, &want, &(f.non_strict)(&raw), "lenient decoding", m)?;
        if let Some(bytes) = m.enc() {
            let c = m.canon();
            agrees(o, &dec_default(&o.ty, &c), &(f.from_slice)(&bytes), "strict decoding", &c)?;
        }
    }
    Ok(class(&want))
}

/// Encoding of a value, and decoding it back.
pub fn encode(o: &Ops, d: &D) -> Out {
    let d = (o.norm)(d);
    let m = enc(&o.ty, &d);
    let e = o.e();
    let Some(want) = m.enc() else { return Ok("equal keys") };
    for (v, what) in [((e.value)(&d), "into_cbor_value"), ((e.to_value)(&d), "to_value")] {
        let g = from_value(&v)?;
        if g.canon() != m.canon() {
            return Err(format!("{what} of {} as {} gives {} instead of {}", show_d(&d), o.name, show(&g), show(&m)));
        }
    }
    if m.depth() > 127 {
        return Ok("too deep");
    }
    let bytes = (e.to_vec)(&d);
    if bytes != want {
        return Err(format!("{} as {} encodes to {} instead of {}", show_d(&d), o.name, show_hex(&bytes), show_hex(&want)));
    }
    let Some(f) = o.dec else { return Ok("encode only") };
    if m.depth() > 64 {
        return Ok("encoded, too deep to decode");
    }
    let Some(back) = round_trip(&o.ty, &d) else { return Ok("encoded, not decodable") };
    if !lossless(&o.ty, &d, true) {
        return Ok("encoded, null-like content");
    }
    let c = m.canon();
    match dec_default(&o.ty, &c) {
        R::Ok(r) if (o.norm)(&r) == (o.norm)(&back) => {}
        r => return Err(format!("MODEL: {} as {} decodes to {r:?}", show(&c), o.name)),
    }
    let want = R::Ok(back);
    agrees(o, &want, &(f.from_slice)(&bytes), "strict decoding", &c)?;
    agrees(o, &want, &(f.non_strict)(&bytes), "lenient decoding", &c)?;
    agrees(o, &want, &(f.from_value)((e.to_value)(&d)), "decoding of the value", &c)?;
    Ok("round trip")
}

/// Whether the value is left out when optional exactly when empty.
pub fn omission(o: &Ops, d: &D) -> Out {
    let d = (o.norm)(d);
    let want = absent(&o.ty, &d);
    let got = (o.e().optional)(&d);
    match (want, got) {
        (true, None) => Ok("left out"),
        (false, Some(v)) => {
            let (g, w) = (from_value(&v)?.canon(), enc(&o.ty, &d).canon());
            if g != w {
                return Err(format!("optional encoding of {} as {} is {} instead of {}", show_d(&d), o.name, show(&g), show(&w)));
            }
            Ok("kept")
        }
        (true, Some(v)) => Err(format!("empty {} of {} is not left out but encoded as {v:?}", show_d(&d), o.name)),
        (false, None) => Err(format!("{} of {} is not empty but left out", show_d(&d), o.name)),
    }
}

/// Null, undefined and absence at the top level.
pub fn nulls(o: &Ops, m: &M) -> Out {
    let want = default(&o.ty);
    let f = o.d();
    agrees(o, &want, &(f.default)(), "default", &NULL)?;
    let want = dec_default(&o.ty, m);
    for (r, w) in [
        ((f.from_value)(to_value(m)), "decoding"),
        ((f.try_from_default)(to_value(m)), "decoding with default"),
        ((f.from_slice)(&m.enc_raw()), "strict decoding"),
        ((f.non_strict)(&m.enc_raw()), "lenient decoding"),
    ] {
        agrees(o, &want, &r, w, m)?;
    }
    Ok(match want {
        R::Ok(_) => "default",
        _ => "rejected as missing",
    })
}
