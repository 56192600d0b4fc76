//! Checks of the value-level properties: reader, writer and value ordering.
use std::cmp::Ordering;

use mccore::bytesgen::{self, Cfg};
use mccore::explore::{main as run, step, Ctx, Engine, Prop};
use mccore::model::*;
use mccore::valgen::{self, space};
use oasis_cbor_value::reader::{self, DecoderError};
use oasis_cbor_value::writer::{self, EncoderError};
use oasis_cbor_value::Value;

#[global_allocator]
static A: mccore::alloc::Counting = mccore::alloc::Counting;

fn bit(e: &DecoderError) -> Errs {
    match e {
        DecoderError::UnsupportedMajorType => E_MAJOR,
        DecoderError::UnknownAdditionalInfo => E_UNKNOWN_INFO,
        DecoderError::IncompleteCborData => E_INCOMPLETE,
        DecoderError::TooMuchNesting => E_NESTING,
        DecoderError::InvalidUtf8 => E_UTF8,
        DecoderError::ExtraneousData => E_EXTRANEOUS,
        DecoderError::OutOfOrderKey => E_ORDER,
        DecoderError::NonMinimalCborEncoding => E_NON_MINIMAL,
        DecoderError::UnsupportedSimpleValue => E_SIMPLE,
        DecoderError::UnsupportedFloatingPointValue => E_FLOAT,
    }
}

fn class(e: Errs) -> &'static str {
    if e & E_NESTING != 0 {
        "reject: nesting"
    } else if e & E_UTF8 != 0 {
        "reject: utf-8"
    } else if e & E_INCOMPLETE != 0 {
        "reject: incomplete"
    } else if e & E_UNKNOWN_INFO != 0 {
        "reject: additional information"
    } else if e & E_EXTRANEOUS != 0 {
        "reject: extraneous"
    } else if e & E_ORDER != 0 {
        "reject: key order"
    } else if e & E_NON_MINIMAL != 0 {
        "reject: not minimal"
    } else if e & E_SIMPLE != 0 {
        "reject: simple value"
    } else {
        "reject: float"
    }
}

fn strict(b: &[u8]) -> Result<M, Errs> {
    Dec::run(true, Some(127), b)
}

fn parse_raw(b: &[u8]) -> M {
    Dec::run(false, None, b).expect("case")
}

fn c01(_: &str, b: &[u8]) -> Result<&'static str, String> {
    let want = strict(b);
    let got = reader::read(b);
    match (want, got) {
        (Ok(m), Ok(v)) => {
            let g = from_value(&v)?;
            if g != m {
                return Err(format!("decodes to {} instead of {}", show(&g), show(&m)));
            }
            let mut out = vec![];
            match writer::write(v, &mut out) {
                Ok(()) if out == b => {}
                Ok(()) => return Err(format!("re-encodes as {}", show_hex(&out))),
                Err(e) => return Err(format!("decoded value cannot be encoded: {e:?}")),
            }
            Ok("accept")
        }
        (Ok(m), Err(e)) => Err(format!("canonical encoding of {} rejected: {e:?}", show(&m))),
        (Err(e), Ok(v)) => Err(format!("accepted as {v:.200?}, expected rejection ({})", errs_names(e))),
        (Err(e), Err(_)) => Ok(class(e)),
    }
}

fn c06(_: &str, b: &[u8]) -> Result<&'static str, String> {
    match (strict(b), reader::read(b)) {
        (Ok(_), Ok(_)) => Ok("accept"),
        (Ok(m), Err(e)) => Err(format!("{} rejected: {e:?}", show(&m))),
        (Err(e), Ok(v)) => Err(format!("malformed input ({}) accepted as {v:.200?}", errs_names(e))),
        (Err(want), Err(got)) => {
            if want & bit(&got) == 0 {
                Err(format!("reported as {got:?}, first fault is {}", errs_names(want)))
            } else {
                Ok(class(want))
            }
        }
    }
}

fn c07(_: &str, b: &[u8]) -> Result<&'static str, String> {
    let want = Dec::run(false, Some(127), b);
    let got = reader::read_nested_non_strict(b, Some(127));
    let res = match (&want, &got) {
        (Ok(m), Ok(v)) => {
            let g = from_value(v)?;
            if g != *m {
                return Err(format!("lenient decoding gives {} instead of {}", show(&g), show(m)));
            }
            "accept"
        }
        (Ok(m), Err(e)) => return Err(format!("lenient decoding rejects {}: {e:?}", show(m))),
        (Err(e), Ok(v)) => {
            return Err(format!("lenient decoding accepts as {v:.200?}, expected rejection ({})", errs_names(*e)))
        }
        (Err(e), Err(_)) => class(*e),
    };
    if let Ok(s) = reader::read(b) {
        match &got {
            Ok(v) if from_value(v)? == from_value(&s)? => return Ok("accept, also strictly"),
            _ => return Err("strict decoding accepts with another result".into()),
        }
    }
    Ok(res)
}

fn c02(_: &str, b: &[u8]) -> Result<&'static str, String> {
    let m = parse_raw(b);
    step(1);
    let (enc, depth) = (m.enc(), m.depth());
    if enc.is_none() || depth > 127 {
        return Ok(if enc.is_none() { "not encodable: equal keys" } else { "not encodable: nesting" });
    }
    let mut out = vec![];
    writer::write(to_value(&m), &mut out).map_err(|e| format!("encoding {} fails: {e:?}", show(&m)))?;
    let v = reader::read(&out).map_err(|e| format!("{} encodes to {} which is rejected: {e:?}", show(&m), show_hex(&out)))?;
    let (g, want) = (from_value(&v)?, m.canon());
    if g != want {
        return Err(format!("{} comes back as {}", show(&want), show(&g)));
    }
    Ok(match m {
        M::U(_) | M::N(_) => "round trip: integer",
        M::B(_) | M::T(_) => "round trip: string",
        M::A(_) => "round trip: array",
        M::Map(_) => "round trip: map",
        M::Tag(..) => "round trip: tag",
        M::S(_) => "round trip: simple",
    })
}

fn c03(_: &str, b: &[u8]) -> Result<&'static str, String> {
    let m = parse_raw(b);
    step(1);
    let (enc, depth) = (m.enc(), m.depth());
    let prefix = [0xa1u8, 0xff, 0x00];
    let mut res = "";
    // Into an empty buffer, a filled one without spare room, and a filled one with room.
    for k in 0..3 {
        let mut out = Vec::with_capacity(if k == 2 { 1000 } else { 0 });
        if k > 0 {
            out.extend(prefix);
        }
        if k == 1 {
            out.shrink_to_fit();
        }
        let start = out.clone();
        let r = writer::write(to_value(&m), &mut out);
        if out.len() < start.len() || out[..start.len()] != start[..] {
            return Err("bytes already in the buffer were changed".into());
        }
        let tail = &out[start.len()..];
        res = match (&enc, r) {
            (None, Err(EncoderError::DuplicateMapKey)) => "refused: equal keys",
            (None, Err(EncoderError::TooMuchNesting)) if depth > 127 => "refused: nesting",
            (None, Ok(())) => return Err(format!("{} with equal keys emitted as {}", show(&m), show_hex(tail))),
            (Some(_), Err(EncoderError::TooMuchNesting)) if depth > 127 => "refused: nesting",
            (Some(_), Ok(())) if depth > 127 => return Err("nesting beyond the limit emitted".into()),
            (Some(want), Ok(())) => {
                if tail != &want[..] {
                    return Err(format!("{} encodes to {} instead of {}", show(&m), show_hex(tail), show_hex(want)));
                }
                "canonical"
            }
            (_, Err(e)) => return Err(format!("encoding {} fails: {e:?}", show(&m))),
        };
    }
    Ok(res)
}

/// `arg` tells where the first value ends.
fn c08_pair(arg: &str, b: &[u8]) -> Result<&'static str, String> {
    let at: usize = arg.parse().unwrap();
    let (x, y) = (parse_raw(&b[..at]), parse_raw(&b[at..]));
    step(1);
    let want = b[..at].cmp(&b[at..]);
    pair(&x, &y, &to_value(&x), &to_value(&y), want)
}

fn pair(x: &M, y: &M, v: &Value, w: &Value, want: Ordering) -> Result<&'static str, String> {
    let got = v.cmp(w);
    if got != want {
        return Err(format!("{} compares {got:?} to {}, their encodings {want:?}", show(x), show(y)));
    }
    if w.cmp(v) != want.reverse() {
        return Err(format!("comparing {} with {} is not antisymmetric", show(y), show(x)));
    }
    if v.partial_cmp(w) != Some(want)
        || (v == w) != (want == Ordering::Equal)
        || (v != w) != (want != Ordering::Equal)
        || (v < w) != (want == Ordering::Less)
        || (v > w) != (want == Ordering::Greater)
        || (v <= w) != (want != Ordering::Greater)
        || (v >= w) != (want != Ordering::Less)
    {
        return Err(format!("comparison operators disagree on {} and {}", show(x), show(y)));
    }
    Ok(match want {
        Ordering::Less => "less",
        Ordering::Equal => "equal",
        Ordering::Greater => "greater",
    })
}

/// Total order over values that need not be canonical: `b` is the raw encoding of an array of three.
fn c08_triple(_: &str, b: &[u8]) -> Result<&'static str, String> {
    let M::A(ms) = parse_raw(b) else { panic!() };
    let vs: Vec<Value> = ms.iter().map(to_value).collect();
    step(1);
    use Ordering::*;
    let c = |i: usize, j: usize| vs[i].cmp(&vs[j]);
    for i in 0..3 {
        if c(i, i) != Equal {
            return Err(format!("{} is not equal to itself", show(&ms[i])));
        }
        for j in 0..3 {
            if c(i, j) != c(j, i).reverse() {
                return Err(format!("not antisymmetric on {} and {}", show(&ms[i]), show(&ms[j])));
            }
            if (vs[i] == vs[j]) != (c(i, j) == Equal) || vs[i].partial_cmp(&vs[j]) != Some(c(i, j)) {
                return Err(format!("operators disagree on {} and {}", show(&ms[i]), show(&ms[j])));
            }
        }
    }
    let (ab, bc, ac) = (c(0, 1), c(1, 2), c(0, 2));
    let ok = match (ab, bc) {
        (Less, Less) | (Less, Equal) | (Equal, Less) => ac == Less,
        (Equal, Equal) => ac == Equal,
        (Greater, Greater) | (Greater, Equal) | (Equal, Greater) => ac == Greater,
        _ => true,
    };
    if !ok {
        return Err(format!("not transitive on {}, {}, {}", show(&ms[0]), show(&ms[1]), show(&ms[2])));
    }
    Ok(match (ab, bc) {
        (Equal, _) | (_, Equal) => "with equal",
        (Less, Less) | (Greater, Greater) => "chain",
        _ => "fork",
    })
}

fn ex_bytes(ctx: &Ctx, p: &Prop) {
    let cfg = if ctx.thorough {
        Cfg { full: 3, pruned: 4, alpha: 8, utf8_full: true, arg8: 7, arg4: 16, arg2_full: true, mutate_nodes: 5, ctx_depth: 4, big: true, places: 2 }
    } else {
        Cfg { full: 3, pruned: 0, alpha: 6, utf8_full: true, arg8: 5, arg4: 16, arg2_full: true, mutate_nodes: 4, ctx_depth: 3, big: false, places: 1 }
    };
    bytesgen::explore(ctx, &p.engines, cfg);
}

fn ex_values(ctx: &Ctx, p: &Prop) {
    space::explore(ctx, &p.engines);
}

fn ex_order(ctx: &Ctx, p: &Prop) {
    let (pairs, triples) = (p.engine("pairs"), p.engine("triples"));
    let mut pool = valgen::trees(if ctx.thorough { 5 } else { 4 }, &valgen::small_leaves(), &[1]);
    pool.extend(valgen::keys());
    for n in valgen::boundary_u64() {
        pool.push(M::U(n));
        pool.push(M::N(n));
    }
    for n in valgen::few_u64() {
        pool.push(tag(n, M::U(0)));
        pool.push(tag(n, t("")));
    }
    for k in valgen::keys() {
        pool.push(M::A(vec![k.clone()]));
        pool.push(M::Map(vec![(k.clone(), M::U(0))]));
        pool.push(M::Map(vec![(M::U(0), k.clone())]));
        pool.push(M::Map(vec![(M::U(0), k.clone()), (M::U(1), M::U(0))]));
        pool.push(tag(5, k.clone()));
    }
    let x = t("x").canon();
    for n in [0usize, 1, 22, 23, 24, 25, 255, 256, 257] {
        pool.push(M::B(vec![1; n]));
        pool.push(M::T("x".repeat(n)));
        pool.push(M::T("a".repeat(n)));
        pool.push(M::A(vec![x.clone(); n]));
        pool.push(M::Map((0..n as u64).map(|i| (M::U(i), M::U(0))).collect()));
    }
    let mut enc: Vec<(Vec<u8>, M)> = pool.iter().filter_map(|m| Some((m.enc()?, m.canon()))).collect();
    enc.sort();
    enc.dedup();
    ctx.bound(format!("pairs: all ordered pairs of {} canonical values", enc.len()));
    ctx.par(enc.len(), false, |w, i| {
        let (ei, _) = &enc[i];
        let at = ei.len().to_string();
        for (ej, _) in &enc {
            w.case(&pairs, &at, &[&ei[..], ej].concat());
        }
    });

    let long = p.engine("long");
    let fams = valgen::long_families(ctx.thorough);
    ctx.bound(format!("long: all pairs within {} families of values (strings, arrays, maps, tag chains) of up to 65537 parts that differ in one place", fams.len()));
    let work: Vec<(usize, usize)> = fams.iter().enumerate().flat_map(|(i, f)| (0..f.1.len()).map(move |k| (i, k))).collect();
    ctx.par(work.len(), false, |w, i| {
        let (i, k) = work[i];
        let f = &fams[i].1;
        let a = f[k].enc_raw();
        for m in f {
            w.case(&long, &a.len().to_string(), &[&a[..], &m.enc_raw()].concat());
        }
    });

    // Triples over values whose maps need not be sorted, and may hold duplicates.
    let mut pool = valgen::trees(3, &[M::U(0), M::N(0), t("")], &[1]);
    let u = M::U;
    for m in [
        vec![(u(1), u(0)), (u(0), u(0))],
        vec![(u(0), u(0)), (u(1), u(0))],
        vec![(u(0), u(0)), (u(0), u(0))],
        vec![(u(0), u(1)), (u(0), u(0))],
        vec![(u(0), u(0)), (u(0), u(1))],
        vec![(u(1), u(0)), (u(0), u(1))],
        vec![(M::Map(vec![(u(1), u(0)), (u(0), u(0))]), u(0))],
        vec![(M::Map(vec![(u(0), u(0)), (u(1), u(0))]), u(0))],
    ] {
        pool.push(M::Map(m));
    }
    pool.extend([u(u64::MAX), M::N(u64::MAX), M::B(vec![]), M::B(vec![0, 0]), M::B(vec![255]), t("b"), t("aa"), FALSE, TRUE, NULL, UNDEF]);
    if !ctx.thorough {
        pool = pool.into_iter().enumerate().filter(|(i, m)| *i < 12 || i % 2 == 0 || matches!(m, M::Map(_))).map(|x| x.1).collect();
    }
    ctx.bound(format!("triples: all ordered triples of {} values, maps unsorted or with equal keys included", pool.len()));
    ctx.par(pool.len(), false, |w, i| {
        for b in &pool {
            for c in &pool {
                w.case(&triples, "", &M::A(vec![pool[i].clone(), b.clone(), c.clone()]).enc_raw());
            }
        }
    });
}

fn main() {
    run(&[
        Prop { id: "C01", engines: bytesgen::engines(c01), explore: ex_bytes },
        Prop { id: "C02", engines: space::engines(c02), explore: ex_values },
        Prop { id: "C03", engines: space::engines(c03), explore: ex_values },
        Prop { id: "C06", engines: bytesgen::engines(c06), explore: ex_bytes },
        Prop { id: "C07", engines: bytesgen::engines(c07), explore: ex_bytes },
        Prop {
            id: "C08",
            engines: vec![Engine { name: "pairs", check: c08_pair }, Engine { name: "long", check: c08_pair }, Engine { name: "triples", check: c08_triple }],
            explore: ex_order,
        },
    ]);
}
