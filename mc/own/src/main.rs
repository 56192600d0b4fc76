//! C28: hand-written implementations inside everything else.
use std::sync::OnceLock;

use mccore::explore::{step, Ctx, Engine, Prop};
use mccore::model::*;
use mctyped::checks::{self, Out, Reg};
use mctyped::dom::*;
use mctyped::own::*;
use mctyped::schema::*;
use mctyped::subj::*;

#[global_allocator]
static A: mccore::alloc::Counting = mccore::alloc::Counting;

fn reg() -> &'static Reg {
    static REG: OnceLock<Reg> = OnceLock::new();
    REG.get_or_init(|| Reg::new(mcown::types::types()))
}

fn main() {
    mccore::explore::main(&[Prop {
        id: "C28",
        engines: vec![
            Engine { name: "values", check: |a, b| checks::encode(reg().get(a), &bytes_d(b)) },
            Engine { name: "omission", check: |a, b| checks::omission(reg().get(a), &bytes_d(b)) },
            Engine { name: "inputs", check: |a, b| checks::decode(reg().get(a), &bytes_m(b)) },
            Engine { name: "nulls", check: |a, b| checks::nulls(reg().get(a), &bytes_m(b)) },
            Engine { name: "errors", check: |a, b| checks::decode(reg().get(a), &bytes_m(b)) },
            Engine { name: "encoding calls", check: encoding_calls },
            Engine { name: "decoding calls", check: decoding_calls },
            Engine { name: "faults", check: faults },
        ],
        explore,
    }]);
}

/// Whether alternatives are tried, so that calls and their errors may come to nothing.
fn tries(ty: &Ty) -> bool {
    let fs = |fs: &[FieldTy]| fs.iter().any(|f| tries(&f.ty) || f.with.as_ref().is_some_and(|c| tries(&c.wire)));
    match ty {
        Ty::Seq(t) | Ty::Arr(t, _) | Ty::Opt(t) | Ty::Set(t, _) => tries(t),
        Ty::Map(k, v) => tries(k) || tries(v),
        Ty::Tuple(ts) => ts.iter().any(tries),
        Ty::Struct(s) => fs(&s.fields),
        Ty::Enum(e) => e.variants.iter().any(|v| v.embed || fs(&v.fields)),
        _ => false,
    }
}

fn same(got: &[Call], want: &[Call], what: &str, o: &Ops) -> Result<(), String> {
    step(1);
    if got == want {
        Ok(())
    } else {
        Err(format!("{what} as {}: hand-written methods are called as {got:?} instead of {want:?}", o.name))
    }
}

fn encoding_calls(arg: &str, b: &[u8]) -> Out {
    let o = reg().get(arg);
    let d = (o.norm)(&bytes_d(b));
    let (m, want) = wanted(|| enc(&o.ty, &d));
    let e = o.e();
    same(&calls(|| (e.value)(&d)).1, &want, "into_cbor_value", o)?;
    same(&calls(|| (e.to_value)(&d)).1, &want, "to_value", o)?;
    if m.enc().is_some() && m.depth() <= 127 {
        same(&calls(|| (e.to_vec)(&d)).1, &want, "to_vec", o)?;
    }
    if !absent(&o.ty, &d) {
        same(&calls(|| (e.optional)(&d)).1, &want, "into_optional_cbor_value", o)?;
    }
    Ok(if want.is_empty() { "no calls" } else { "each once" })
}

fn decoding_calls(arg: &str, b: &[u8]) -> Out {
    let o = reg().get(arg);
    let m = bytes_m(b);
    let f = o.d();
    let mut class = "refused";
    let (r, want) = wanted(|| dec_default(&o.ty, &m));
    if let R::Ok(_) = r {
        class = if want.is_empty() { "no calls" } else { "each once" };
        same(&calls(|| (f.from_value)(to_value(&m))).1, &want, "from_value", o)?;
        same(&calls(|| (f.try_from_default)(to_value(&m))).1, &want, "try_from_cbor_value_default", o)?;
        same(&calls(|| (f.non_strict)(&m.enc_raw())).1, &want, "from_slice_non_strict", o)?;
        if let Some(bytes) = m.enc() {
            same(&calls(|| (f.from_slice)(&bytes)).1, &want, "from_slice", o)?;
        }
    }
    let (r, want) = wanted(|| dec(&o.ty, &m));
    if let R::Ok(_) = r {
        same(&calls(|| (f.try_from)(to_value(&m))).1, &want, "try_from_cbor_value", o)?;
    }
    Ok(class)
}

fn faults(arg: &str, b: &[u8]) -> Out {
    let o = reg().get(arg);
    let m = bytes_m(b);
    let f = o.d();
    let bytes = m.enc();
    let raw = m.enc_raw();
    let ops: [(&str, &dyn Fn() -> Res); 6] = [
        ("try_from_cbor_value", &|| (f.try_from)(to_value(&m))),
        ("try_from_cbor_value_default", &|| (f.try_from_default)(to_value(&m))),
        ("from_value", &|| (f.from_value)(to_value(&m))),
        ("from_slice_non_strict", &|| (f.non_strict)(&raw)),
        ("from_slice", &|| (f.from_slice)(bytes.as_ref().unwrap())),
        ("try_default", &|| (f.default)()),
    ];
    let mut any = false;
    for (name, op) in ops {
        if name == "from_slice" && bytes.is_none() {
            continue;
        }
        // What fails anyway is not of interest.
        if op().is_err() {
            continue;
        }
        for at in 0..64 {
            let mut more = false;
            for e in [PARSE, TYPE, MISSING, UNKNOWN, SIZE] {
                step(1);
                let (r, hit) = failing(at, e, op);
                more = hit;
                match (hit, r) {
                    (true, Err(g)) if g == e => any = true,
                    (false, Ok(_)) => {}
                    (_, r) => {
                        return Err(format!(
                            "{name} of {} as {} gives {} though call {at} of a hand-written method {}",
                            show(&m),
                            o.name,
                            checks::show_res(&r),
                            if hit { format!("fails with {}", derrs_names(e)) } else { "does not happen".into() }
                        ))
                    }
                }
            }
            if !more {
                break;
            }
        }
    }
    Ok(if any { "reported" } else { "nothing to fail" })
}

/// Every item with one of its parts replaced.
fn replaced(m: &M, x: &M, out: &mut dyn FnMut(M)) {
    out(x.clone());
    match m {
        M::A(a) => {
            for i in 0..a.len().min(12) {
                replaced(&a[i], x, &mut |y| {
                    let mut b = a.clone();
                    b[i] = y;
                    out(M::A(b));
                });
            }
        }
        M::Map(e) => {
            for i in 0..e.len().min(12) {
                replaced(&e[i].0, x, &mut |y| {
                    let mut b = e.clone();
                    b[i].0 = y;
                    out(M::Map(b));
                });
                replaced(&e[i].1, x, &mut |y| {
                    let mut b = e.clone();
                    b[i].1 = y;
                    out(M::Map(b));
                });
            }
        }
        _ => {}
    }
}

fn explore(ctx: &Ctx, p: &Prop) {
    let [values, omission, inputs_, nulls, errors, enc_calls, dec_calls, faulty] =
        ["values", "omission", "inputs", "nulls", "errors", "encoding calls", "decoding calls", "faults"].map(|n| p.engine(n));
    let reg = reg();
    let (nv, ni, nf) = if ctx.thorough { (6000, 12, 60) } else { (600, 4, 12) };
    ctx.bound(format!(
        "types: {} containers, structs, enums and generics around five hand-written types (required methods only; emptiness and a default of their own; omission decided alone; null decoded by themselves; always a map)",
        reg.list.len()
    ));
    ctx.bound(format!("values, omission, encoding calls: up to {nv} values of each type; their hand-written parts of every kind of data item"));
    ctx.bound(format!("inputs, decoding calls: items of every kind, and everything one edit away from the encodings of {ni} values of each type (of each variant)"));
    ctx.bound(format!("errors: the encodings of {nf} values of each type (of each variant) with any one part replaced by one of five items, each refused with another error"));
    ctx.bound(format!("faults: the same encodings, each call of a hand-written decoding method made to fail (up to 64) with each of the five errors, through every entry point; types trying embedded variants left out"));
    ctx.par(reg.list.len(), true, |w, i| {
        let o = &reg.list[i];
        if o.enc.is_some() {
            for d in dom(&o.ty, nv) {
                let b = d_bytes(&d);
                w.case(&values, &o.name, &b);
                w.case(&omission, &o.name, &b);
                w.case(&enc_calls, &o.name, &b);
            }
        }
        if o.dec.is_none() {
            return;
        }
        let per = |n: usize| match &o.ty {
            Ty::Enum(t) => n * t.variants.len().clamp(1, 4),
            _ => n,
        };
        for m in [NULL, UNDEF] {
            w.case(&nulls, &o.name, &m.enc_raw());
        }
        let once = !tries(&o.ty);
        for m in inputs(&o.ty, per(ni), false) {
            let b = m.enc_raw();
            w.case(&inputs_, &o.name, &b);
            if once {
                w.case(&dec_calls, &o.name, &b);
            }
        }
        for d in dom(&o.ty, per(nf)) {
            let m = enc(&o.ty, &(o.norm)(&d));
            for e in 0..5 {
                replaced(&m, &M::U(60 + e), &mut |x| w.case(&errors, &o.name, &x.enc_raw()));
            }
            if once {
                w.case(&faulty, &o.name, &m.enc_raw());
                w.case(&dec_calls, &o.name, &m.enc_raw());
            }
        }
        if once {
            for m in [NULL, UNDEF] {
                w.case(&faulty, &o.name, &m.enc_raw());
            }
        }
    });
}
