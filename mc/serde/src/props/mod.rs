//! C17, C18, C19, C25, C27: the serde layer.
use mccore::bytesgen::{self, Cfg};
use mccore::explore::{Ctx, Engine, Prop};
use mccore::model::*;
use mccore::valgen::{self, space};
use crate::any::*;
use mctyped::checks::Out;
use mctyped::dom::*;
use mctyped::schema::*;
use crate::serde_sem::*;
use crate::serde_subj::*;
use oasis_cbor::serde as cs;

mod adhoc;
mod entries;
mod protocol;

pub fn props() -> Vec<Prop> {
    let mut e17 = vec![eng("types", rt_case), eng("adhoc", adhoc::case)];
    e17.extend(space::engines(any_enc));
    let mut e18 = vec![eng("types", dec_case), eng("numbers", dec_case), eng("kinds", dec_case), eng("lengths", dec_case), eng("floats", adhoc::float_dec), eng("float values", adhoc::float_enc)];
    e18.extend(bytesgen::engines(any_dec));
    vec![
        Prop { id: "C17", engines: e17, explore: ex17 },
        Prop { id: "C18", engines: e18, explore: ex18 },
        Prop { id: "C19", engines: vec![eng("types", both_case)], explore: ex19 },
        entries::prop(),
        protocol::prop(),
    ]
}

fn eng(name: &'static str, check: mccore::explore::Check) -> Engine {
    Engine { name, check }
}

/// Encoding of a value, and decoding it back.
fn rt_case(arg: &str, b: &[u8]) -> Out {
    let o = sreg().get(arg);
    let d = (o.norm)(&bytes_d(b));
    let m = senc(&o.ty, &d);
    let Some(want) = m.enc().filter(|_| m.depth() <= 127) else {
        return match (o.to_vec)(&d) {
            Err(_) => Ok("equal keys"),
            Ok(b) => Err(format!("{} as {arg} has equal keys but encodes to {}", show_d(&d), show_hex(&b))),
        };
    };
    let v = (o.to_value)(&d).map_err(|e| format!("to_value of {} as {arg} fails: {e}", show_d(&d)))?;
    let bytes = (o.to_vec)(&d).map_err(|e| format!("{} as {arg} does not encode: {e}", show_d(&d)))?;
    if !hashed(&o.ty) {
        let g = from_value(&v)?;
        if g.canon() != m.canon() {
            return Err(format!("to_value of {} as {arg} gives {} instead of {}", show_d(&d), show(&g), show(&m)));
        }
        if bytes != want {
            return Err(format!("{} as {arg} encodes to {} instead of {}", show_d(&d), show_hex(&bytes), show_hex(&want)));
        }
    } else if Dec::run(true, Some(127), &bytes).is_err() {
        return Err(format!("{} as {arg} encodes to {} which is not canonical", show_d(&d), show_hex(&bytes)));
    }
    if m.depth() > 64 {
        return Ok("encoded, too deep to decode");
    }
    if !slossless(&o.ty, &d) {
        return Ok("encoded, null-like content");
    }
    let back = sback(&o.ty, &d);
    if !hashed(&o.ty) {
        match sdec(&o.ty, &m.canon()) {
            R::Ok(x) if (o.norm)(&x) == (o.norm)(&back) => {}
            r => return Err(format!("MODEL: {} as {arg} decodes to {r:?}", show(&m))),
        }
    }
    for (r, what) in [((o.from_slice)(&bytes), "from_slice"), ((o.from_value)(v), "from_value")] {
        match r {
            Ok(g) if (o.norm)(&g) == (o.norm)(&back) => {}
            Ok(g) => return Err(format!("{what}: {} as {arg} comes back as {}", show_d(&back), show_d(&g))),
            Err(e) => return Err(format!("{what}: {} as {arg} does not come back: {e}", show_d(&back))),
        }
    }
    Ok("round trip")
}

/// Any data item, its map entries in any order.
fn any_enc(_: &str, b: &[u8]) -> Out {
    let m = bytes_m(b);
    if !describable(&m) {
        return Ok("not describable");
    }
    let r = cs::to_vec(&Any(m.clone())).map_err(|e| e.to_string());
    match (m.enc().filter(|_| m.depth() <= 127), r) {
        (Some(want), Ok(got)) if want == got => {
            if m.depth() <= 64 {
                match cs::from_slice::<Any>(&got) {
                    Ok(Any(g)) if g == m.canon() => {}
                    r => return Err(format!("{} comes back as {r:.300?}", show(&m))),
                }
            }
            Ok("round trip")
        }
        (Some(want), Ok(got)) => Err(format!("{} encodes to {} instead of {}", show(&m), show_hex(&got), show_hex(&want))),
        (Some(_), Err(e)) => Err(format!("{} does not encode: {e}", show(&m))),
        (None, Ok(got)) => Err(format!("{} cannot be encoded but yields {}", show(&m), show_hex(&got))),
        (None, Err(_)) => Ok("refused: equal keys or nesting"),
    }
}

/// Whatever is in the bytes.
fn any_dec(_: &str, b: &[u8]) -> Out {
    let r = cs::from_slice::<Any>(b);
    match Dec::run(true, Some(64), b) {
        Ok(m) => match (delivered(&m), r) {
            (Some(want), Ok(Any(g))) if g == want => Ok("delivered"),
            (Some(want), r) => Err(format!("{} is delivered as {r:.300?}", show(&want))),
            (None, Err(_)) => Ok("refused: tag"),
            (None, Ok(g)) => Err(format!("{} holds a tag but is delivered as {g:.300?}", show(&m))),
        },
        Err(e) => match r {
            Err(cs::Error::ByteDecoder(_)) => Ok("refused: bytes"),
            Err(e) => Err(format!("malformed bytes reported as {e}")),
            Ok(g) => Err(format!("malformed bytes ({}) delivered as {g:.300?}", errs_names(e))),
        },
    }
}

fn judge(o: &SOps, want: &R, got: SRes, what: &str, m: &M) -> Result<(), String> {
    match (want, got) {
        (R::Free, _) => Ok(()),
        (R::Ok(w), Ok(g)) if (o.norm)(w) == g => Ok(()),
        (R::Err(_), Err(_)) => Ok(()),
        (R::Ok(w), g) => Err(format!("{what} of {} as {} gives {g:.300?} instead of {}", show(m), o.name, show_d(w))),
        (R::Err(_), g) => Err(format!("{what} of {} as {} gives {g:.300?} instead of an error", show(m), o.name)),
    }
}

fn dec_case(arg: &str, b: &[u8]) -> Out {
    let o = sreg().get(arg);
    let m = bytes_m(b);
    let want = sdec(&o.ty, &m);
    judge(o, &want, (o.from_value)(to_value(&m)), "from_value", &m)?;
    if let Some(bytes) = m.enc().filter(|_| m.depth() <= 64) {
        let c = m.canon();
        judge(o, &sdec(&o.ty, &c), (o.from_slice)(&bytes), "from_slice", &c)?;
    }
    Ok(match want {
        R::Ok(_) => "accept",
        R::Err(_) => "reject",
        R::Free => "unspecified",
    })
}

fn both_case(arg: &str, b: &[u8]) -> Out {
    let o = sreg().get(arg);
    let n = o.native.as_ref().unwrap();
    let d = (o.norm)(&bytes_d(b));
    if enc(&o.ty, &d).enc().is_none() {
        return Ok("equal keys");
    }
    let s = (o.to_vec)(&d).map_err(|e| format!("{} as {arg} does not encode: {e}", show_d(&d)))?;
    let v = (n.e().to_vec)(&d);
    if s != v {
        return Err(format!("{} as {arg}: serde gives {}, native {}", show_d(&d), show_hex(&s), show_hex(&v)));
    }
    let sv = (o.to_value)(&d).map_err(|e| e.to_string())?;
    let nv = (n.e().to_value)(&d);
    if from_value(&sv)?.canon() != from_value(&nv)?.canon() {
        return Err(format!("{} as {arg}: serde value {sv:.300?}, native {nv:.300?}", show_d(&d)));
    }
    let lossless = slossless(&o.ty, &d) && lossless(&o.ty, &d, true);
    if !lossless {
        return Ok("same bytes, null-like content");
    }
    for (r, what) in [
        ((o.from_slice)(&v).ok(), "serde decoding"),
        ((n.d().from_slice)(&s).ok(), "native decoding"),
        ((o.from_value)(nv).ok(), "serde decoding of the native value"),
        ((n.d().from_value)(sv).ok(), "native decoding of the serde value"),
    ] {
        if r.as_ref() != Some(&d) {
            return Err(format!("{what} of {} as {arg} gives {:.300?}", show_d(&d), r));
        }
    }
    Ok("same bytes, decoded by the other")
}

fn ex17(ctx: &Ctx, p: &Prop) {
    let e = p.engine("types");
    let reg = sreg();
    let n = if ctx.thorough { 20000 } else { 6000 };
    ctx.bound(format!("types: {} types (scalars, compositions, derived structs and enums of every variant kind over 40 field types, serde attributes), up to {n} boundary values of each", reg.list.len()));
    ctx.par(reg.list.len(), true, |w, i| {
        let o = &reg.list[i];
        if decode_only(&o.name) {
            return;
        }
        for d in dom(&o.ty, n) {
            w.case(&e, &o.name, &d_bytes(&d));
        }
    });
    let e = p.engine("adhoc");
    ctx.bound(format!("adhoc: {} values of types serde describes in other ways (tagged, untagged, flattened, boxed, borrowed, standard library)", adhoc::examples().len()));
    ctx.par(adhoc::examples().len(), true, |w, i| w.case(&e, "", &(i as u32).to_be_bytes()));
    space::explore(ctx, &p.engines);
}

fn ex18(ctx: &Ctx, p: &Prop) {
    let e = p.engine("types");
    let reg = sreg();
    let n = if ctx.thorough { 40 } else { 8 };
    ctx.bound(format!("types: {} types; data items of every kind, encodings (of this layer and the native one) of up to {n} values of each type, and everything one edit away{}", reg.list.len(), if ctx.thorough { ", two edits for the first values" } else { "" }));
    ctx.par(reg.list.len(), true, |w, i| {
        let o = &reg.list[i];
        let mut keys = vec![];
        type_keys(&o.ty, &mut keys);
        keys.sort();
        keys.dedup();
        for m in inputs(&o.ty, n, false) {
            w.case(&e, &o.name, &m.enc_raw());
        }
        for (j, d) in dom(&o.ty, n).iter().enumerate() {
            let m = senc(&o.ty, &(o.norm)(d));
            w.case(&e, &o.name, &m.enc_raw());
            for x in edits(&m, &keys) {
                w.case(&e, &o.name, &x.enc_raw());
                if w.ctx.thorough && j < 3 {
                    for y in edits(&x, &keys).into_iter().take(300) {
                        w.case(&e, &o.name, &y.enc_raw());
                    }
                }
            }
        }
    });
    let e = p.engine("numbers");
    let mut ns = valgen::boundary_u64();
    ns.extend(0..if ctx.thorough { 1 << 18 } else { 70000 });
    for k in 1..64 {
        for low in [0u64, 1, 5, 0x7f, 0x80, 0xff, 0x7fff, 0xffff, 0x7fff_ffff] {
            ns.push((1u64 << k).wrapping_add(low));
            ns.push((u64::MAX << k) | low);
        }
        for d in 0..300 {
            ns.push((1u64 << k).wrapping_add(d).wrapping_sub(150));
        }
    }
    ns.sort();
    ns.dedup();
    ctx.bound(format!("numbers: {} magnitudes as unsigned and negative integers, into every integer type, i128, u128, bool, char, options and containers", ns.len()));
    let ts = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "i128", "u128", "bool", "char", "String", "()", "Option<u16>", "Option<i64>", "Option<i128>"];
    ctx.par(ns.len().div_ceil(512), false, |w, i| {
        for n in &ns[i * 512..(i * 512 + 512).min(ns.len())] {
            for m in [M::U(*n), M::N(*n)] {
                for t in ts {
                    w.case(&e, t, &m.enc_raw());
                }
                w.case(&e, "Vec<i64>", &M::A(vec![m.clone()]).enc_raw());
                w.case(&e, "BTreeMap<i64,i8>", &M::Map(vec![(m.clone(), M::U(0))]).enc_raw());
                w.case(&e, "AE4", &M::Map(vec![(t("N"), m)]).enc_raw());
            }
        }
    });
    let e = p.engine("kinds");
    ctx.bound("kinds: every encoding of up to 8 values of each type, decoded as every other type");
    let mut flat: Vec<Vec<u8>> = reg.list.iter().flat_map(|o| dom(&o.ty, 8).iter().map(|d| senc(&o.ty, &(o.norm)(d)).enc_raw()).collect::<Vec<_>>()).collect();
    flat.sort();
    flat.dedup();
    ctx.par(reg.list.len(), false, |w, i| {
        for b in &flat {
            w.case(&e, &reg.list[i].name, b);
        }
    });
    let e = p.engine("lengths");
    ctx.bound("lengths: arrays of 0 to 30 elements into every tuple, array and tuple struct, also as the content of tuple variants");
    ctx.par(reg.list.len(), true, |w, i| {
        let o = &reg.list[i];
        let cut = |a: &[M], n: usize, fill: &M| -> M {
            let mut v: Vec<M> = a.iter().take(n).cloned().collect();
            v.resize(n, fill.clone());
            M::A(v)
        };
        for d in dom(&o.ty, 10) {
            let m = senc(&o.ty, &(o.norm)(&d));
            for n in 0..=30 {
                for fill in [NULL, M::U(1), t("q")] {
                    match &m {
                        M::A(a) => w.case(&e, &o.name, &cut(a, n, &fill).enc_raw()),
                        M::Map(es) if es.len() == 1 => {
                            if let M::A(a) = &es[0].1 {
                                w.case(&e, &o.name, &M::Map(vec![(es[0].0.clone(), cut(a, n, &fill))]).enc_raw());
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
    });
    let e = p.engine("floats");
    let ms: Vec<M> = valgen::keys().into_iter().chain(valgen::trees(if ctx.thorough { 5 } else { 4 }, &valgen::small_leaves(), &[1])).collect();
    ctx.bound(format!("floats: {} data items into {} types that hold floats; {} float values in {} positions", ms.len(), adhoc::float_types().len(), adhoc::floats().len(), adhoc::POSITIONS));
    ctx.par(ms.len(), true, |w, i| {
        for (n, _) in adhoc::float_types() {
            w.case(&e, n, &ms[i].enc_raw());
        }
    });
    let e = p.engine("float values");
    ctx.par(adhoc::floats().len(), true, |w, i| {
        for k in 0..adhoc::POSITIONS {
            w.case(&e, "", &[&[k as u8][..], &adhoc::floats()[i].to_be_bytes()].concat());
        }
    });
    let cfg = if ctx.thorough {
        Cfg { full: 4, pruned: 0, alpha: 7, utf8_full: true, arg8: 5, arg4: 8, arg2_full: true, mutate_nodes: 5, ctx_depth: 4, big: true, places: 1 }
    } else {
        Cfg { full: 2, pruned: 4, alpha: 5, utf8_full: true, arg8: 4, arg4: 6, arg2_full: true, mutate_nodes: 4, ctx_depth: 3, big: false, places: 0 }
    };
    bytesgen::explore(ctx, &p.engines, cfg);
}

fn ex19(ctx: &Ctx, p: &Prop) {
    let e = p.engine("types");
    let reg = sreg();
    let n = if ctx.thorough { 40000 } else { 10000 };
    let shared: Vec<&SOps> = reg.list.iter().filter(|o| o.native.is_some()).collect();
    ctx.bound(format!("types: {} types implementing both layers without attributes, up to {n} boundary values of each", shared.len()));
    ctx.par(shared.len(), true, |w, i| {
        let o = shared[i];
        for d in dom(&o.ty, n) {
            w.case(&e, &o.name, &d_bytes(&d));
        }
    });
}
