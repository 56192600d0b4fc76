//! C09, C10: standard types.
use mccore::explore::{Ctx, Prop};
use mccore::model::*;
use mccore::valgen;
use mctyped::checks;
use mctyped::dom::*;
use mctyped::schema::*;
use mctyped::std_types::reg;

use super::{chunks, eng};

fn enc_case(arg: &str, b: &[u8]) -> checks::Out {
    checks::encode(reg().get(arg), &bytes_d(b))
}
fn dec_case(arg: &str, b: &[u8]) -> checks::Out {
    checks::decode(reg().get(arg), &bytes_m(b))
}

pub fn c09() -> Prop {
    Prop { id: "C09", engines: vec![eng("types", enc_case), eng("ranges", enc_case)], explore: ex09 }
}
pub fn c10() -> Prop {
    Prop { id: "C10", engines: vec![eng("types", dec_case), eng("ints", dec_case), eng("chars", dec_case), eng("sizes", dec_case), eng("pairs", dec_case)], explore: ex10 }
}

fn ex09(ctx: &Ctx, p: &Prop) {
    let e = p.engine("types");
    let reg = reg();
    let n = if ctx.thorough { 40000 } else { 10000 };
    ctx.bound(format!("types: {} types (every scalar, and compositions of them by vectors, arrays, tuples of 1 to 10, options, sets and maps), up to {n} boundary values of each", reg.list.len()));
    ctx.par(reg.list.len(), true, |w, i| {
        let o = &reg.list[i];
        for d in dom(&o.ty, n) {
            w.case(&e, &o.name, &d_bytes(&d));
        }
    });
    let e = p.engine("ranges");
    let mut ranges: Vec<(&str, i128, i128)> = vec![("u8", 0, 255), ("i8", -128, 127), ("u16", 0, 65535), ("i16", -32768, 32767)];
    let wide = if ctx.thorough { 1 << 20 } else { 1 << 17 };
    for (t, lo, hi) in [
        ("u32", 0, u32::MAX as i128),
        ("i32", i32::MIN as i128, i32::MAX as i128),
        ("u64", 0, u64::MAX as i128),
        ("i64", i64::MIN as i128, i64::MAX as i128),
    ] {
        ranges.push((t, hi - 5000, hi));
        if lo < 0 {
            ranges.push((t, -wide, wide));
            ranges.push((t, lo, lo + 5000));
        } else {
            ranges.push((t, 0, wide));
        }
        for k in [16, 24, 31, 32, 33, 48, 56, 62, 63] {
            for c in [1i128 << k, -(1i128 << k)] {
                let (a, b) = ((c - 300).max(lo), (c + 300).min(hi));
                if a <= b {
                    ranges.push((t, a, b));
                }
            }
        }
    }
    ctx.bound(format!("ranges: u8, i8, u16, i16 and char complete; u32 to i64 near zero ({wide}), near both ends and around powers of two; u128 with every bit pattern of one or two runs; byte strings of all lengths to 300 and of all single bytes"));
    ctx.par(ranges.len(), true, |w, i| {
        let (t, lo, hi) = ranges[i];
        for n in lo..=hi {
            w.case(&e, t, &d_bytes(&D::Int(n)));
        }
    });
    chunks(ctx, 0x110000, 4096, |w, i| {
        if let Some(c) = char::from_u32(i as u32) {
            w.case(&e, "char", &d_bytes(&D::Char(c)));
        }
    });
    ctx.par(129, true, |w, i| {
        for j in 0..=128 {
            let ones = |n: usize| if n >= 128 { u128::MAX } else { (1u128 << n) - 1 };
            for x in [ones(i) ^ ones(j), !(ones(i) ^ ones(j)), ones(i).wrapping_add(1) ^ ones(j)] {
                w.case(&e, "u128", &d_bytes(&D::Big(x)));
            }
        }
    });
    chunks(ctx, 301, 1, |w, n| {
        for b in [0u8, 0x7f, 0xff, (n % 251) as u8] {
            w.case(&e, "Vec<u8>", &d_bytes(&D::Bytes(vec![b; n])));
        }
        w.case(&e, "String", &d_bytes(&D::Str("y".repeat(n))));
        w.case(&e, "Vec<u16>", &d_bytes(&D::Seq((0..n).map(|i| D::Int(i as i128 * 217)).collect())));
        w.case(&e, "Vec<bool>", &d_bytes(&D::Seq((0..n).map(|i| D::Bool(i % 3 == 0)).collect())));
        w.case(&e, "BTreeSet<i16>", &d_bytes(&D::Seq((0..n).map(|i| D::Int(i as i128 * 99 - 9000)).collect())));
        w.case(&e, "HashSet<i16>", &d_bytes(&D::Seq((0..n).map(|i| D::Int(i as i128 * 99 - 9000)).collect())));
        w.case(&e, "HashMap<i64,i8>", &d_bytes(&D::Map((0..n).map(|i| (D::Int(i as i128 * 99 - 9000), D::Int(i as i128 % 100))).collect())));
        w.case(&e, "BTreeMap<String,i8>", &d_bytes(&D::Map((0..n).map(|i| (D::Str(format!("{}", i * 37)), D::Int(i as i128 % 100))).collect())));
    });
}

fn ex10(ctx: &Ctx, p: &Prop) {
    let e = p.engine("types");
    let reg = reg();
    let n = if ctx.thorough { 200 } else { 60 };
    ctx.bound(format!("types: {} types; data items of every kind, encodings of up to {n} values of each type, and everything one edit (replace, insert, delete, duplicate, swap, wrap, shift by a power of two) away{}", reg.list.len(), if ctx.thorough { ", two edits for the first values" } else { "" }));
    ctx.par(reg.list.len(), true, |w, i| {
        let o = &reg.list[i];
        for m in inputs(&o.ty, n, false) {
            w.case(&e, &o.name, &m.enc_raw());
        }
        if w.ctx.thorough {
            for m in inputs(&o.ty, 3, true) {
                w.case(&e, &o.name, &m.enc_raw());
            }
        }
    });

    let e = p.engine("ints");
    let mut ns = valgen::boundary_u64();
    ns.extend(0..if ctx.thorough { 1 << 18 } else { 70000 });
    for k in [31, 32, 63] {
        for d in 0..600u64 {
            ns.push((1u64 << k).wrapping_add(d).wrapping_sub(300));
        }
    }
    // Values that look small once truncated to 8, 16 or 32 bits.
    for k in 1..64 {
        for low in [0u64, 1, 5, 0x7f, 0x80, 0xff, 0x7fff, 0xffff, 0x7fff_ffff] {
            ns.push((1u64 << k).wrapping_add(low));
            ns.push((u64::MAX << k) | low);
        }
    }
    ns.sort();
    ns.dedup();
    ctx.bound(format!("ints: {} magnitudes as unsigned and negative integers, into every integer type, u128, bool and char", ns.len()));
    let ts = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "u128", "bool", "char", "Option<u16>", "Option<i32>", "(u8,)"];
    ctx.par(ns.len().div_ceil(512), false, |w, i| {
        for n in &ns[i * 512..(i * 512 + 512).min(ns.len())] {
            for t in ts {
                for m in [M::U(*n), M::N(*n)] {
                    let m = if t == "(u8,)" { M::A(vec![m]) } else { m };
                    w.case(&e, t, &m.enc_raw());
                }
            }
        }
    });

    let e = p.engine("chars");
    let top = 0x112000u64;
    ctx.bound("chars: every integer up to 0x112000, and each with bits above the 21st or 32nd set, into char");
    chunks(ctx, top as usize, 4096, |w, i| {
        let i = i as u64;
        w.case(&e, "char", &M::U(i).enc_raw());
        if i % 64 == 0 || i < 1024 {
            for k in [21, 24, 31, 32, 40, 63] {
                w.case(&e, "char", &M::U(i | 1 << k).enc_raw());
            }
            w.case(&e, "char", &M::N(i).enc_raw());
        }
    });

    let e = p.engine("sizes");
    ctx.bound("sizes: byte strings of 0 to 40 bytes (5 patterns) into u128 and byte arrays of 0, 1, 2, 16, 32; arrays of 0 to 30 elements into arrays and tuples of every size");
    chunks(ctx, 41, 1, |w, n| {
        for t in ["u128", "[u8;0]", "[u8;1]", "[u8;2]", "[u8;16]", "[u8;32]", "Vec<u8>", "Option<u128>", "[u8;2]", "String"] {
            let mut pats: Vec<Vec<u8>> = vec![vec![0; n], vec![0xff; n], vec![1; n], (0..n).map(|i| i as u8 + 1).collect()];
            for i in 0..n {
                let mut b = vec![0; n];
                b[i] = 0x80;
                pats.push(b.clone());
                b[0] = 1;
                pats.push(b);
            }
            for b in pats {
                w.case(&e, t, &M::B(b.clone()).enc_raw());
                w.case(&e, t, &M::A(b.iter().map(|x| M::U(*x as u64)).collect()).enc_raw());
            }
        }
        if n <= 30 {
            for o in reg.list.iter().filter(|o| matches!(o.ty, Ty::Arr(..) | Ty::Tuple(_))) {
                // Elements of the type itself, cut or extended.
                for d in dom(&o.ty, 6) {
                    let M::A(a) = enc(&o.ty, &d) else { panic!() };
                    let fill = a.last().cloned().unwrap_or(M::U(0));
                    let mut v: Vec<M> = a.iter().take(n).cloned().collect();
                    while v.len() < n {
                        v.push(fill.clone());
                    }
                    w.case(&e, &o.name, &M::A(v.clone()).enc_raw());
                    for x in [NULL, UNDEF, M::U(1), t("q")] {
                        if n > a.len() {
                            let mut v = v.clone();
                            v[n - 1] = x;
                            w.case(&e, &o.name, &M::A(v).enc_raw());
                        }
                    }
                }
            }
        }
    });

    let e = p.engine("pairs");
    ctx.bound("pairs: every encoding of up to 12 values of each type, decoded as every other type");
    let all: Vec<Vec<Vec<u8>>> = reg.list.iter().map(|o| dom(&o.ty, 12).iter().map(|d| enc(&o.ty, &(o.norm)(d)).enc_raw()).collect()).collect();
    let mut flat: Vec<Vec<u8>> = all.into_iter().flatten().collect();
    flat.sort();
    flat.dedup();
    ctx.par(reg.list.len(), false, |w, i| {
        for b in &flat {
            w.case(&e, &reg.list[i].name, b);
        }
    });
}
