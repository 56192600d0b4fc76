//! C05: nesting limits.
use mccore::bytesgen::nested_bytes;
use mccore::explore::{no_panic, step, Ctx, Prop};
use mccore::model::*;
use mccore::valgen::{self, Step, STEPS};
use oasis_cbor::reader::{self, DecoderError};
use oasis_cbor::writer::{self, EncoderError};
use oasis_cbor::{DecodeError, Value};

use super::eng;
use mctyped::checks::Out;

pub fn c05() -> Prop {
    Prop { id: "C05", engines: vec![eng("trees", all_limits), eng("chains", all_limits), eng("mixed", all_limits), eng("defaults", defaults)], explore }
}

fn limits(depth: usize) -> Vec<Option<i8>> {
    let mut v: Vec<Option<i8>> = vec![None, Some(-128), Some(-127), Some(-2), Some(-1), Some(0), Some(1), Some(2), Some(63), Some(64), Some(65), Some(126), Some(127)];
    for d in depth.saturating_sub(3)..=depth + 3 {
        if d <= 127 {
            v.push(Some(d as i8));
        }
    }
    v
}

fn decoded(r: Result<Value, DecoderError>, m: &M, want: bool, what: &str) -> Result<(), String> {
    match (want, r) {
        (true, Ok(v)) if from_value(&v)? == *m => Ok(()),
        (false, Err(DecoderError::TooMuchNesting)) => Ok(()),
        (_, r) => Err(format!("{what} of depth {}: {}", m.depth(), short(r.map(|_| "accepted")))),
    }
}
fn short<E: std::fmt::Debug>(r: Result<&str, E>) -> String {
    format!("{r:?}")
}

fn encoded(r: Result<(), EncoderError>, out: &[u8], bytes: &[u8], want: bool, what: &str, depth: usize) -> Result<(), String> {
    match (want, r) {
        (true, Ok(())) if out == bytes => Ok(()),
        (false, Err(EncoderError::TooMuchNesting)) => Ok(()),
        (_, r) => Err(format!("{what} of depth {depth}: {}", short(r.map(|_| "accepted")))),
    }
}

/// Every limit against a canonical encoding; with arg "all" really every one.
fn all_limits(arg: &str, b: &[u8]) -> Out {
    let m = Dec::run(true, None, b).map_err(|e| format!("MODEL: not canonical: {}", errs_names(e)))?;
    let d = m.depth();
    let ls: Vec<Option<i8>> = if arg == "all" { std::iter::once(None).chain((-128..=127).map(Some)).collect() } else if arg == "near" { vec![None, Some((d as i64 - 1).min(127) as i8), Some(d.min(127) as i8), Some((d + 1).min(127) as i8)] } else { limits(d) };
    for l in ls {
        step(1);
        let want = l.map_or(true, |l| d as i64 <= l as i64);
        decoded(reader::read_nested(b, l), &m, want, &format!("strict decoding with limit {l:?}"))?;
        decoded(reader::read_nested_non_strict(b, l), &m, want, &format!("lenient decoding with limit {l:?}"))?;
        let mut out = vec![];
        let r = writer::write_nested(to_value(&m), &mut out, l);
        encoded(r, &out, b, want, &format!("encoding with limit {l:?}"), d)?;
    }
    Ok(if d == 0 {
        "flat"
    } else if d <= 64 {
        "within typed limit"
    } else if d <= 127 {
        "within generic limit"
    } else {
        "beyond every limit"
    })
}

/// The entry points without an explicit limit.
fn defaults(_: &str, b: &[u8]) -> Out {
    let m = Dec::run(true, None, b).map_err(|e| format!("MODEL: not canonical: {}", errs_names(e)))?;
    let d = m.depth();
    decoded(reader::read(b), &m, d <= 127, "generic decoding")?;
    let mut out = vec![];
    let r = writer::write(to_value(&m), &mut out);
    encoded(r, &out, b, d <= 127, "generic encoding", d)?;
    match no_panic(|| oasis_cbor::to_vec(to_value(&m))) {
        Ok(o) if d <= 127 && o == b => {}
        Err(_) if d > 127 => {}
        r => return Err(format!("typed encoding of depth {d}: {:?}", r.map(|_| "accepted"))),
    }
    let lim = d <= 64;
    for (lenient, r) in [(false, oasis_cbor::from_slice::<Value>(b)), (true, oasis_cbor::from_slice_non_strict::<Value>(b))] {
        let top_null = matches!(m, NULL | UNDEF);
        match r {
            Ok(v) if lim && (top_null || from_value(&v)? == m) => {}
            Err(DecodeError::ParsingFailed) if !lim => {}
            r => return Err(format!("typed decoding (lenient: {lenient}) of depth {d}: {}", short(r.map(|_| "accepted")))),
        }
    }
    // Data that serde takes: no tags.
    if !has_tag(&m) {
        match oasis_cbor::serde::from_slice::<serde::de::IgnoredAny>(b) {
            Ok(_) if lim => {}
            Err(oasis_cbor::serde::Error::ByteDecoder(DecoderError::TooMuchNesting)) if !lim => {}
            r => return Err(format!("serde decoding of depth {d}: {:?}", r.map(|_| "accepted").map_err(|e| e.to_string()))),
        }
        match oasis_cbor::serde::to_vec(&Ser(&m)) {
            Ok(o) if d <= 127 && o == b => {}
            Err(_) if d > 127 => {}
            r => return Err(format!("serde encoding of depth {d}: {:?}", r.map(|_| "accepted").map_err(|e| e.to_string()))),
        }
    }
    Ok(if lim {
        "typed and generic"
    } else if d <= 127 {
        "generic only"
    } else {
        "neither"
    })
}

fn has_tag(m: &M) -> bool {
    match m {
        M::Tag(..) => true,
        M::A(a) => a.iter().any(has_tag),
        M::Map(e) => e.iter().any(|(k, v)| has_tag(k) || has_tag(v)),
        _ => *m == UNDEF,
    }
}

/// A data item as serde data.
struct Ser<'a>(&'a M);
impl serde::Serialize for Ser<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            M::U(n) => s.serialize_u64(*n),
            M::N(n) => s.serialize_i64(-1 - *n as i64),
            M::B(b) => s.serialize_bytes(b),
            M::T(t) => s.serialize_str(t),
            M::A(a) => s.collect_seq(a.iter().map(Ser)),
            M::Map(m) => s.collect_map(m.iter().map(|(k, v)| (Ser(k), Ser(v)))),
            M::S(22) => s.serialize_unit(),
            m => s.serialize_bool(*m == TRUE),
        }
    }
}

fn explore(ctx: &Ctx, p: &Prop) {
    let (e, ed) = (p.engine("trees"), p.engine("defaults"));
    let n = if ctx.thorough { 9 } else { 8 };
    let mut trees: Vec<M> = valgen::trees(n, &[M::U(0)], &[1]);
    trees.extend(valgen::trees(4, &valgen::small_leaves(), &[0, 100]));
    ctx.bound(format!("trees: all trees of up to {n} nodes over one leaf, one tag, arrays and maps (and of up to 4 nodes over 6 leaves), every limit next to their depth and every special limit"));
    ctx.par(trees.len().div_ceil(4096), true, |w, i| {
        for m in &trees[i * 4096..(i * 4096 + 4096).min(trees.len())] {
            if let Some(b) = m.enc() {
                w.case(&e, "", &b);
                w.case(&ed, "", &b);
            }
        }
    });
    drop(trees);

    let e = p.engine("chains");
    let leaves: Vec<Vec<u8>> = vec![vec![0x00], vec![0x80], vec![0xa0], vec![0x40], vec![0x60], vec![0xf6], vec![0x61, 0x61], vec![0x81, 0x00]];
    ctx.bound("chains: every chain of two alternating kinds of nesting (of 8: arrays first/last/only, map keys and values first/last, tags) at every depth from 0 to 131, 8 innermost items, each against all 257 limits at depths 0-3, 60-68, 124-131 and near ones elsewhere");
    ctx.par(64 * 132, true, |w, i| {
        let (k, d) = (i % 64, i / 64);
        let steps: Vec<Step> = (0..d).map(|j| STEPS[if j % 2 == 0 { k / 8 } else { k % 8 }]).collect();
        for l in &leaves {
            let b = nested_bytes(&steps, l);
            if Dec::run(true, None, &b).is_err() {
                continue; // an innermost item that cannot follow the key before it
            }
            let every = d <= 3 || (60..=68).contains(&d) || d >= 124;
            w.case(&e, if every { "all" } else { "" }, &b);
            w.case(&ed, "", &b);
        }
    });

    let e = p.engine("mixed");
    let len = if ctx.thorough { 7 } else { 5 };
    ctx.bound(format!("mixed: every sequence of {len} kinds of nesting around and inside chains that bring the total to 62-66 and 125-129"));
    ctx.par(8usize.pow(len as u32), true, |w, i| {
        let mut seq = vec![];
        let mut x = i;
        for _ in 0..len {
            seq.push(STEPS[x % 8]);
            x /= 8;
        }
        let base = STEPS[(i / 8) % 8];
        for total in [62, 63, 64, 65, 66, 125, 126, 127, 128, 129] {
            for at in [0, total / 2, total - len] {
                if at != total - len && i % 3 != 0 && !w.ctx.thorough {
                    continue;
                }
                let mut steps = vec![base; total - len];
                for (j, s) in seq.iter().enumerate() {
                    steps.insert(at.min(steps.len()) + j.min(steps.len() - at.min(steps.len())), *s);
                }
                let b = nested_bytes(&steps, &[0x80]);
                if Dec::run(true, None, &b).is_ok() {
                    w.case(&e, "near", &b);
                    w.case(&ed, "", &b);
                }
            }
        }
    });
}
