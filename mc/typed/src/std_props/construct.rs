//! C20: value constructors and map destructuring.
use mccore::explore::{step, Ctx, Prop};
use mccore::model::*;
use mccore::valgen;
use oasis_cbor::values::{IntoCborValue, IntoCborValueOption};
use oasis_cbor::{
    cbor_array, cbor_array_vec, cbor_bool, cbor_bytes, cbor_bytes_lit, cbor_false, cbor_int, cbor_map, cbor_map_collection, cbor_map_options, cbor_null,
    cbor_tagged, cbor_text, cbor_true, cbor_undefined, cbor_unsigned, destructure_cbor_map, DecodeError, SimpleValue, Value,
};

use super::eng;
use mctyped::checks::Out;
use mctyped::dom::bytes_m;

pub fn c20() -> Prop {
    Prop {
        id: "C20",
        engines: vec![eng("convert", convert), eng("collect", collect), eng("options", options), eng("literals", literals), eng("destructure", destructure), eng("strict", strict)],
        explore,
    }
}

fn is(v: Value, want: &M, what: &str) -> Result<(), String> {
    step(1);
    let g = from_value(&v)?;
    if g != *want {
        return Err(format!("{what} gives {} instead of {}", show(&g), show(want)));
    }
    Ok(())
}

/// Every way of converting one datum of a type.
fn each<T: Clone>(x: T, want: &M, what: &str) -> Result<(), String>
where
    Value: From<T>,
{
    is(Value::from(x.clone()), want, &format!("From<{what}>"))?;
    is(x.clone().into_cbor_value(), want, &format!("{what} into_cbor_value"))?;
    let opt = |o: Option<Value>, how: &str| match o {
        Some(v) => is(v, want, how),
        None => Err(format!("{how} gives None")),
    };
    opt(x.clone().into_cbor_value_option(), &format!("{what} into_cbor_value_option"))?;
    opt(Some(x.clone()).into_cbor_value_option(), &format!("Some({what}) into_cbor_value_option"))?;
    if None::<T>.into_cbor_value_option().is_some() {
        return Err(format!("None::<{what}> gives a value"));
    }
    is(cbor_array![x.clone()], &M::A(vec![want.clone()]), "cbor_array!")?;
    is(cbor_array_vec!(vec![x.clone(), x.clone()]), &M::A(vec![want.clone(); 2]), "cbor_array_vec!")?;
    is(cbor_array_vec!(Vec::<T>::new()), &M::A(vec![]), "cbor_array_vec!")?;
    is(cbor_map! {1 => x.clone()}, &M::Map(vec![(M::U(1), want.clone())]), "cbor_map! value")?;
    is(cbor_map! {x.clone() => "v"}, &M::Map(vec![(want.clone(), t("v"))]), "cbor_map! key")?;
    is(cbor_map_options! {1 => x.clone(), x.clone() => Some(2), 3 => Some(x.clone()), "no" => None::<T>}, &M::Map(vec![(M::U(1), want.clone()), (want.clone(), M::U(2)), (M::U(3), want.clone())]), "cbor_map_options!")
}

fn convert(arg: &str, b: &[u8]) -> Out {
    match arg {
        "int" => {
            let n = i128::from_le_bytes(b.try_into().unwrap());
            let m = int(n);
            if let Ok(x) = u64::try_from(n) {
                each(x, &m, "u64")?;
                is(cbor_unsigned!(x), &m, "cbor_unsigned!")?;
                let s = SimpleValue::from_integer(x).map(Value::Simple);
                match (s, x) {
                    (Some(v), 20..=23) => is(v, &M::S(x as u8), "from_integer")?,
                    (None, 0..=19 | 24..) => {}
                    (s, _) => return Err(format!("SimpleValue::from_integer({x}) gives {s:?}")),
                }
            }
            if let Ok(x) = i64::try_from(n) {
                each(x, &m, "i64")?;
                is(Value::integer(x), &m, "Value::integer")?;
                is(cbor_int!(x), &m, "cbor_int!")?;
            }
            if let Ok(x) = i32::try_from(n) {
                each(x, &m, "i32")?;
            }
            Ok(if n < 0 { "negative" } else { "unsigned" })
        }
        "bool" => {
            let x = b[0] != 0;
            let m = if x { TRUE } else { FALSE };
            each(x, &m, "bool")?;
            is(Value::bool_value(x), &m, "bool_value")?;
            is(cbor_bool!(x), &m, "cbor_bool!")?;
            Ok("bool")
        }
        "bytes" => {
            let m = M::B(b.to_vec());
            each(b.to_vec(), &m, "Vec<u8>")?;
            each(b, &m, "&[u8]")?;
            is(cbor_bytes!(b.to_vec()), &m, "cbor_bytes!")?;
            is(cbor_bytes_lit!(b), &m, "cbor_bytes_lit!")?;
            Ok("bytes")
        }
        "text" => {
            let s = std::str::from_utf8(b).unwrap();
            let m = t(s);
            each(s.to_string(), &m, "String")?;
            each(s, &m, "&str")?;
            is(cbor_text!(s), &m, "cbor_text!")?;
            is(cbor_text!(s.to_string()), &m, "cbor_text!")?;
            Ok("text")
        }
        _ => panic!(),
    }
}

/// A generic value, alone and as the content of arrays, maps and tags.
fn collect(_: &str, b: &[u8]) -> Out {
    let m = bytes_m(b);
    let v = to_value(&m);
    each(v.clone(), &m, "Value")?;
    if v.type_label() != b[0] >> 5 {
        return Err(format!("type_label of {} is {}", show(&m), v.type_label()));
    }
    is(cbor_tagged!(77, v.clone()), &tag(77, m.clone()), "cbor_tagged!")?;
    match &m {
        M::A(a) => {
            let vs: Vec<Value> = a.iter().map(to_value).collect();
            each(vs.clone(), &m, "Vec<Value>")?;
            is(cbor_array_vec!(vs), &m, "cbor_array_vec!")?;
            Ok("array")
        }
        M::Map(e) => {
            let vs: Vec<(Value, Value)> = e.iter().map(|(k, v)| (to_value(k), to_value(v))).collect();
            each(vs.clone(), &m, "Vec<(Value, Value)>")?;
            is(cbor_map_collection!(vs), &m, "cbor_map_collection!")?;
            Ok("map")
        }
        _ => Ok("other"),
    }
}

/// Maps and arrays built by macros: array of keys, array of values (null for a missing one).
fn options(_: &str, b: &[u8]) -> Out {
    let M::A(parts) = bytes_m(b) else { panic!() };
    let (M::A(k), M::A(v)) = (&parts[0], &parts[1]) else { panic!() };
    let key = |i: usize| to_value(&k[i]);
    let opt = |i: usize| if v[i] == NULL { None } else { Some(to_value(&v[i])) };
    let val = |i: usize| to_value(&v[i]);
    let (o, a, m) = match k.len() {
        0 => (cbor_map_options! {}, cbor_array![], cbor_map! {}),
        1 => (cbor_map_options! {key(0) => opt(0)}, cbor_array![val(0),], cbor_map! {key(0) => val(0),}),
        2 => (cbor_map_options! {key(0) => opt(0), key(1) => opt(1),}, cbor_array![val(0), val(1)], cbor_map! {key(0) => val(0), key(1) => val(1)}),
        3 => (
            cbor_map_options! {key(0) => opt(0), key(1) => opt(1), key(2) => opt(2)},
            cbor_array![val(0), val(1), val(2)],
            cbor_map! {key(0) => val(0), key(1) => val(1), key(2) => val(2)},
        ),
        4 => (
            cbor_map_options! {key(0) => opt(0), key(1) => opt(1), key(2) => opt(2), key(3) => opt(3)},
            cbor_array![val(0), val(1), val(2), val(3)],
            cbor_map! {key(0) => val(0), key(1) => val(1), key(2) => val(2), key(3) => val(3)},
        ),
        _ => panic!(),
    };
    let all: Vec<(M, M)> = k.iter().cloned().zip(v.iter().cloned()).collect();
    is(o, &M::Map(all.iter().filter(|e| e.1 != NULL).cloned().collect()), "cbor_map_options!")?;
    is(m, &M::Map(all), "cbor_map!")?;
    is(a, &M::A(v.clone()), "cbor_array!")?;
    Ok(if v.contains(&NULL) { "some entries missing" } else { "all entries present" })
}

/// Macro invocations with literals.
fn literals(_: &str, b: &[u8]) -> Out {
    let u = M::U;
    match b[0] {
        0 => is(cbor_true!(), &TRUE, "cbor_true!")?,
        1 => is(cbor_false!(), &FALSE, "cbor_false!")?,
        2 => is(cbor_null!(), &NULL, "cbor_null!")?,
        3 => is(cbor_undefined!(), &UNDEF, "cbor_undefined!")?,
        4 => is(cbor_array![1, -1, "x", true, cbor_null!(), vec![1u8], cbor_array![2]], &M::A(vec![u(1), M::N(0), t("x"), TRUE, NULL, M::B(vec![1]), M::A(vec![u(2)])]), "cbor_array!")?,
        5 => is(
            cbor_map! {5 => 1, "z" => -1000, cbor_bytes!(vec![1, 2]) => cbor_map!{}, 1 => false, cbor_array![0] => cbor_tagged!(3, cbor_text!("q"))},
            &M::Map(vec![(u(5), u(1)), (t("z"), M::N(999)), (M::B(vec![1, 2]), M::Map(vec![])), (u(1), FALSE), (M::A(vec![u(0)]), tag(3, t("q")))]),
            "cbor_map!",
        )?,
        6 => {
            let missing: Option<bool> = None;
            is(
                cbor_map_options! {5 => Some(1), "z" => missing, "y" => -1000, 1 => None::<String>, "w" => Some("s")},
                &M::Map(vec![(u(5), u(1)), (t("y"), M::N(999)), (t("w"), t("s"))]),
                "cbor_map_options!",
            )?
        }
        7 => is(cbor_bytes_lit!(b"foo"), &M::B(b"foo".to_vec()), "cbor_bytes_lit!")?,
        8 => {
            let map = vec![(Value::from(1), Value::from("a")), (Value::from(-1), Value::from("b")), (Value::from("k"), Value::from("c"))];
            destructure_cbor_map! {
                let {
                    0 => zero,
                    1 => one,
                    2 => two,
                    -1 => neg,
                    -2 => neg2,
                    b"" as &[u8] => bytes,
                    "k" => k,
                    "kk" => kk,
                } = map;
            }
            let got = [zero, one, two, neg, neg2, bytes, k, kk];
            let want = [None, Some("a"), None, Some("b"), None, None, Some("c"), None];
            for (g, w) in got.iter().zip(want) {
                if g.as_ref().map(from_value).transpose()? != w.map(t) {
                    return Err(format!("destructuring gives {got:?}"));
                }
            }
        }
        _ => panic!(),
    }
    Ok("as written")
}

/// Keys wanted (array), and a map.
fn destructure(_: &str, b: &[u8]) -> Out {
    let M::A(parts) = bytes_m(b) else { panic!() };
    let (M::A(k), M::Map(e)) = (&parts[0], &parts[1]) else { panic!() };
    let map: Vec<(Value, Value)> = e.iter().map(|(k, v)| (to_value(k), to_value(v))).collect();
    let key = |i: usize| to_value(&k[i]);
    step(e.len() as u64);
    let got: Vec<Option<oasis_cbor::Value>> = match k.len() {
        1 => {
            destructure_cbor_map! { let { key(0) => a, } = map; }
            vec![a]
        }
        2 => {
            destructure_cbor_map! { let { key(0) => a, key(1) => b, } = map; }
            vec![a, b]
        }
        3 => {
            destructure_cbor_map! { let { key(0) => a, key(1) => b, key(2) => c, } = map; }
            vec![a, b, c]
        }
        4 => {
            destructure_cbor_map! { let { key(0) => a, key(1) => b, key(2) => c, key(3) => d, } = map; }
            vec![a, b, c, d]
        }
        _ => panic!(),
    };
    for (k, g) in k.iter().zip(&got) {
        let want = e.iter().find(|e| e.0 == *k).map(|e| e.1.clone());
        if g.as_ref().map(from_value).transpose()? != want {
            return Err(format!("key {} is bound to {g:?} instead of {want:?}", show(k)));
        }
    }
    let n = got.iter().filter(|g| g.is_some()).count();
    Ok(if n == 0 {
        "none present"
    } else if n == k.len() {
        "all present"
    } else {
        "some present"
    })
}

#[derive(Default, oasis_cbor::Decode)]
#[allow(dead_code)]
struct Keys {
    #[cbor(rename = 1)]
    a: Value0,
    #[cbor(rename = 255)]
    b: Value0,
    #[cbor(rename = "b")]
    c: Value0,
    #[cbor(rename = "aa")]
    d: Value0,
}
#[derive(oasis_cbor::Decode)]
#[cbor(transparent)]
struct Value0(Option<u8>);
impl Default for Value0 {
    fn default() -> Self {
        Value0(None)
    }
}

fn universe() -> Vec<M> {
    let u = M::U;
    vec![u(0), u(1), u(24), u(255), u(256), M::N(0), M::N(1), M::B(vec![]), t(""), t("b"), t("c"), t("aa"), t("bb"), M::A(vec![]), M::Map(vec![]), FALSE]
}

/// Strict destructuring, as derived decoding uses it.
fn strict(_: &str, b: &[u8]) -> Out {
    let m = bytes_m(b);
    let M::Map(e) = &m else { panic!() };
    let keys = [M::U(1), M::U(255), t("b"), t("aa")];
    let known = e.iter().all(|e| keys.contains(&e.0));
    step(e.len() as u64);
    match oasis_cbor::from_value::<Keys>(to_value(&m)) {
        Ok(g) if known => {
            for (k, g) in keys.iter().zip([g.a, g.b, g.c, g.d]) {
                let want = e.iter().find(|e| e.0 == *k).map(|e| e.1.clone());
                if g.0.map(|n| M::U(n as u64)) != want {
                    return Err(format!("key {} is bound to {:?} instead of {want:?}", show(k), g.0));
                }
            }
            Ok("bound")
        }
        Err(DecodeError::UnknownField) if !known => Ok("unknown key"),
        r => Err(format!("{} gives {:?}", show(&m), r.map(|_| "success"))),
    }
}

fn explore(ctx: &Ctx, p: &Prop) {
    let e = p.engine("convert");
    let mut ns: Vec<i128> = (-70000..70000).collect();
    for n in valgen::boundary_u64() {
        for d in -300..=300 {
            ns.push(n as i128 + d);
            ns.push(-(n as i128) + d);
        }
    }
    ns.retain(|n| *n >= i64::MIN as i128 && *n <= u64::MAX as i128);
    ns.sort();
    ns.dedup();
    ctx.bound(format!("convert: {} integers through every conversion, constructor and macro; both booleans; byte strings and texts of all lengths to 300, every single byte, and boundary contents", ns.len()));
    ctx.par(ns.len().div_ceil(1024), false, |w, i| {
        for n in &ns[i * 1024..(i * 1024 + 1024).min(ns.len())] {
            w.case(&e, "int", &n.to_le_bytes());
        }
    });
    let mut bs: Vec<Vec<u8>> = (0..=300).map(|n| vec![b'y'; n]).collect();
    bs.extend((0..=255u8).map(|b| vec![b]));
    bs.extend((0..=255u8).map(|b| vec![0, b, 0]));
    bs.extend([255usize, 256, 65535, 65536, 70000].map(|n| vec![b'z'; n]));
    bs.extend(valgen::byte_strings());
    bs.extend(valgen::texts().into_iter().map(|t| t.into_bytes()));
    for c in (0..0x3000).chain(0xd700..0xe100).chain(0xff00..0x10100).chain(0x10ff00..0x110000) {
        if let Some(c) = char::from_u32(c) {
            bs.push(c.to_string().into_bytes());
        }
    }
    ctx.par(bs.len(), true, |w, i| {
        w.case(&e, "bytes", &bs[i]);
        if std::str::from_utf8(&bs[i]).is_ok() {
            w.case(&e, "text", &bs[i]);
        }
        if i < 2 {
            w.case(&e, "bool", &[i as u8]);
        }
    });

    let e = p.engine("collect");
    let n = if ctx.thorough { 5 } else { 4 };
    let ms = valgen::trees(n, &valgen::small_leaves(), &[0, 1 << 40]);
    ctx.bound(format!("collect: all trees of up to {n} nodes over 6 leaves, as vectors, pair lists and tag contents"));
    ctx.par(ms.len().div_ceil(256), true, |w, i| {
        for m in &ms[i * 256..(i * 256 + 256).min(ms.len())] {
            w.case(&e, "", &m.enc_raw());
        }
    });

    let e = p.engine("options");
    let ks = [M::U(2), t("a"), M::N(5), M::U(2), M::A(vec![M::U(1)])];
    let vs = [NULL, M::U(0), FALSE, M::A(vec![NULL]), UNDEF, t("")];
    ctx.bound("options: macros with up to 4 entries over 5 keys and 6 values (missing, false, zero, empty, undefined, an array) in every combination");
    for n in 0..=4u32 {
        let (nk, nv) = (ks.len(), vs.len());
        ctx.par(nk.pow(n), true, |w, i| {
            for j in 0..nv.pow(n) {
                let pick = |x: usize, b: usize, s: &[M]| M::A((0..n).map(|k| s[x / b.pow(k) % b].clone()).collect());
                w.case(&e, "", &M::A(vec![pick(i, nk, &ks), pick(j, nv, &vs)]).enc_raw());
            }
        });
    }

    let e = p.engine("literals");
    ctx.par(9, true, |w, i| w.case(&e, "", &[i as u8]));

    let e = p.engine("destructure");
    let all = universe();
    let us: Vec<M> = if ctx.thorough { all.clone() } else { all.iter().step_by(2).cloned().chain([t("b"), t("aa")]).collect() };
    let mut us = us;
    us.sort_by_key(|m| m.enc_raw());
    us.dedup();
    let n = us.len();
    ctx.bound(format!("destructure: every ascending list of 1 to 4 keys and every sorted map over {n} keys of all kinds"));
    let lists: Vec<u32> = (1u32..1 << n).filter(|m| m.count_ones() <= 4).collect();
    let subset = |mask: u32| (0..n).filter(move |i| mask >> i & 1 == 1);
    ctx.par(lists.len(), true, |w, i| {
        let keys = M::A(subset(lists[i]).map(|i| us[i].clone()).collect());
        for mask in 0..1u32 << n {
            if n > 12 && mask.count_ones() > 6 {
                continue;
            }
            let map = M::Map(subset(mask).map(|i| (us[i].clone(), M::U(100 + i as u64))).collect());
            w.case(&e, "", &M::A(vec![keys.clone(), map]).enc_raw());
        }
    });
    let e = p.engine("strict");
    let n = all.len();
    ctx.bound(format!("strict: every sorted map over {n} keys, four of them known"));
    ctx.par(1 << (n - 8), true, |w, i| {
        for j in 0..256u32 {
            let mask = (i as u32) << 8 | j;
            let m = M::Map((0..n).filter(|i| mask >> i & 1 == 1).map(|i| (all[i].clone(), M::U(100 + i as u64))).collect());
            w.case(&e, "", &m.enc_raw());
        }
    });
}
