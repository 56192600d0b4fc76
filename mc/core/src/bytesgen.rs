//! Finite spaces of byte strings, shared by every property that quantifies over inputs.
use crate::explore::{Ctx, Engine, Worker};
use crate::model::*;
use crate::valgen::*;

#[derive(Clone, Copy)]
pub struct Cfg {
    /// Every string up to this many bytes.
    pub full: usize,
    /// Every string up to this many bytes, extending only prefixes that are not settled.
    pub pruned: usize,
    /// Reduced alphabet up to this many bytes, extending only prefixes that are not settled.
    pub alpha: usize,
    /// Complete three-byte UTF-8 content (else boundary bytes only).
    pub utf8_full: bool,
    /// Symbols per byte of an eight-byte argument.
    pub arg8: usize,
    pub arg4: usize,
    /// Complete two-byte arguments (else boundary bytes only).
    pub arg2_full: bool,
    /// Nodes of the trees whose encodings are mutated.
    pub mutate_nodes: usize,
    /// Depth of context nesting.
    pub ctx_depth: usize,
    pub big: bool,
    /// How many lengths and positions of long documents with one fault.
    pub places: usize,
}

pub const NAMES: [&str; 10] =
    ["all", "pruned", "alpha", "heads", "utf8", "holes", "sizes", "places", "nest", "mutate"];

pub fn engines(check: crate::explore::Check) -> Vec<Engine> {
    NAMES.iter().map(|n| Engine { name: n, check }).collect()
}

fn eng(es: &[Engine], n: &str) -> Engine {
    *es.iter().find(|e| e.name == n).unwrap()
}

/// State of both models after a prefix; a prefix is settled when both have rejected or finished.
fn settled(p: &[u8]) -> bool {
    let mut s = Dec::new(true, Some(127));
    let mut l = Dec::new(false, Some(127));
    for b in p {
        s.feed(*b);
        l.feed(*b);
    }
    !matches!(s.out, Out::Pending) && !matches!(l.out, Out::Pending)
}

const EXT: [u8; 4] = [0x00, 0x61, 0x80, 0xff];

fn dfs(w: &mut Worker, e: &Engine, arg: &str, p: &mut Vec<u8>, max: usize, alpha: &dyn Fn(&[u8]) -> Vec<u8>) {
    w.case(e, arg, p);
    if p.len() >= max || w.stopped() {
        return;
    }
    let next = if settled(p) {
        // Settled: what follows cannot change the outcome; a few continuations confirm it.
        if p.len() >= 2 && settled(&p[..p.len() - 1]) {
            return;
        }
        EXT.to_vec()
    } else {
        alpha(p)
    };
    for b in next {
        p.push(b);
        dfs(w, e, arg, p, max, alpha);
        p.pop();
    }
}

fn reduced(p: &[u8]) -> Vec<u8> {
    let mut l = Dec::new(false, Some(127));
    for b in p {
        l.feed(*b);
    }
    if l.in_string() {
        vec![0x00, 0x61, 0xc3, 0xa9, 0xff]
    } else if l.at_head() || !matches!(l.out, Out::Pending) {
        vec![
            0x00, 0x01, 0x18, 0x19, 0x20, 0x40, 0x41, 0x60, 0x61, 0x62, 0x80, 0x81, 0x82, 0xa0, 0xa1, 0xa2, 0xc0, 0xf4,
            0xf6, 0xe0, 0xf8, 0xf9, 0x1c, 0x5f, 0xff,
        ]
    } else {
        vec![0x00, 0x01, 0x17, 0x18, 0xff]
    }
}

/// One-hole contexts as byte templates: what comes before and after the hole.
fn contexts() -> Vec<(Vec<u8>, Vec<u8>)> {
    vec![
        (vec![0x81], vec![]),
        (vec![0x82, 0x00], vec![]),
        (vec![0x82], vec![0x00]),
        (vec![0xa1], vec![0x00]),
        (vec![0xa1, 0x00], vec![]),
        (vec![0xa2, 0x00, 0x00], vec![0x00]),
        (vec![0xa2, 0x00, 0x00, 0x01], vec![]),
        (vec![0xa2], vec![0x00, 0xf7, 0x00]),
        (vec![0xa2, 0x00], vec![0x01, 0x00]),
        (vec![0xc1], vec![]),
        (vec![0xd8, 0x20], vec![]),
        (vec![0xa2, 0x61, 0x61, 0x00], vec![0x00]),
    ]
}

/// Items and fragments put into the holes: valid ones, and every sort of fault.
fn payloads() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    for m in keys() {
        v.push(m.enc_raw());
    }
    let small = [0u64, 1, 5, 20, 21, 22, 23, 24, 32, 255, 256, 65535, 65536, 0xffff_ffff, 0x1_0000_0000, u64::MAX];
    for major in 0..8u8 {
        for w in [1usize, 2, 4, 8] {
            for n in small {
                if w < 8 && n >> (8 * w) != 0 {
                    continue;
                }
                let mut b = vec![];
                head_w(major, w, n, &mut b);
                if n <= 5 {
                    // With its content, so that only the width is unusual.
                    let mut c = b.clone();
                    match major {
                        2 | 3 => c.extend(vec![0x61; n as usize]),
                        4 => c.extend(vec![0x00; n as usize]),
                        5 => (0..n).for_each(|i| c.extend([i as u8, 0])),
                        6 => c.push(0),
                        _ => {}
                    }
                    v.push(c);
                }
                v.push(b);
            }
        }
        for ai in 28..32 {
            v.push(vec![major << 5 | ai]);
            v.push(vec![major << 5 | ai, 0x00, 0xff]);
        }
    }
    for n in 0..32u8 {
        if n < 24 {
            v.push(vec![0xe0 | n]);
        }
        v.push(vec![0xf8, n]);
    }
    // Strings that are short of content, or badly encoded.
    for h in [0x41u8, 0x42, 0x43, 0x44, 0x58, 0x61, 0x62, 0x63, 0x64, 0x78] {
        for c in [&[][..], &[0x61], &[0xff], &[0xc3], &[0xc3, 0xa9], &[0xe2, 0x82], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xc0, 0x80], &[0x61, 0xff], &[0x80], &[0xf0, 0x9f, 0x98, 0x80]] {
            let mut b = vec![h];
            b.extend(c);
            v.push(b);
        }
    }
    // Floats.
    for b in [&[0xf9u8, 0x3c, 0x00][..], &[0xf9, 0x00, 0x14], &[0xf9, 0x00, 0x16], &[0xf9, 0x00, 0x00], &[0xfa, 0, 0, 0, 0x15], &[0xfa, 0x7f, 0x80, 0, 0], &[0xfb, 0, 0, 0, 0, 0, 0, 0, 0x17], &[0xfb, 0x3f, 0xf0, 0, 0, 0, 0, 0, 0], &[0xf9, 0x3c], &[0xfb, 0x3f, 0xf0]] {
        v.push(b.to_vec());
    }
    // Maps out of order, with duplicates, nested faults.
    for b in [
        &[0xa2u8, 0x01, 0x00, 0x00, 0x00][..],
        &[0xa2, 0x00, 0x00, 0x00, 0x00],
        &[0xa2, 0x00, 0x00],
        &[0xa2, 0x01, 0x00, 0x00],
        &[0xa1],
        &[0xa1, 0x00],
        &[0xa2, 0x20, 0x00, 0x18, 0x64, 0x00],
        &[0xa2, 0x62, 0x61, 0x61, 0x00, 0x61, 0x62, 0x00],
        &[0xa2, 0x61, 0x62, 0x00, 0x62, 0x61, 0x61, 0x00],
        &[0xa3, 0x00, 0x00, 0x02, 0x00, 0x01, 0x00],
        &[0xa2, 0x80, 0x00, 0x60, 0x00],
        &[0xa2, 0xa1, 0x01, 0x00, 0x00, 0xa1, 0x00, 0x01, 0x00],
        &[0xa2, 0x00, 0xa2, 0x01, 0x00, 0x00, 0x00, 0x01, 0x00],
        &[0x82, 0x00],
        &[0x82, 0x00, 0x1c],
        &[0xc0],
        &[0xc0, 0xff],
        &[0x9f, 0x00, 0xff],
        &[0xbf, 0x00, 0x00, 0xff],
        &[0x5f, 0x41, 0x00, 0xff],
        &[0x7f, 0x61, 0x61, 0xff],
        &[0x00, 0x00],
    ] {
        v.push(b.to_vec());
    }
    v.sort();
    v.dedup();
    v
}

/// Documents whose neighbourhood is explored.
fn documents(nodes: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = trees(nodes, &small_leaves(), &[1])
        .iter()
        .filter(|m| !matches!(m, M::U(_) | M::N(_)))
        .map(|m| m.canon().enc_raw())
        .collect();
    for m in keys() {
        v.push(m.enc_raw());
    }
    // A few longer ones, like the structures this library is used for.
    let u = |n| M::U(n);
    for m in [
        M::Map(vec![(t("v"), u(1)), (t("call"), M::Map(vec![(t("body"), M::Map(vec![(t("to"), M::B(vec![7; 21])), (t("amount"), M::A(vec![M::B(vec![0x0f, 0xff]), M::B(vec![])]))])), (t("method"), t("accounts.Transfer"))])), (t("ai"), M::Map(vec![(t("fee"), M::Map(vec![(t("gas"), u(100000))]))]))]),
        M::A(vec![u(u64::MAX), M::N(u64::MAX), M::B((0..30).collect()), t(&"é".repeat(13)), M::Map((0..26).map(|i| (u(i), M::N(i))).collect()), tag(1 << 40, NULL)]),
        M::Map(vec![(M::A(vec![u(1), u(2)]), TRUE), (M::Map(vec![(t("a"), FALSE)]), UNDEF), (tag(3, t("x")), M::A(vec![])), (NULL, M::Map(vec![]))]),
        M::A((0..25).map(|i| if i % 2 == 0 { u(i) } else { M::A(vec![M::N(i)]) }).collect()),
    ] {
        v.push(m.canon().enc_raw());
    }
    v.sort();
    v.dedup();
    v
}

const INTERESTING: [u8; 28] = [
    0x00, 0x01, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1f, 0x20, 0x38, 0x40, 0x41, 0x58, 0x5f, 0x60, 0x61, 0x78, 0x80, 0x81,
    0x98, 0xa0, 0xa1, 0xc1, 0xf5, 0xf8, 0xf9, 0xff,
];

pub fn explore(ctx: &Ctx, es: &[Engine], cfg: Cfg) {
    // Every short string.
    let e = eng(es, "all");
    ctx.bound(format!("all: every byte string of up to {} bytes", cfg.full));
    ctx.par(257, false, |w, i| {
        if i == 256 {
            w.case(&e, "", &[]);
            return;
        }
        let mut p = vec![i as u8];
        fn rec(w: &mut Worker, e: &Engine, p: &mut Vec<u8>, max: usize) {
            w.case(e, "", p);
            if p.len() < max {
                for b in 0..=255 {
                    p.push(b);
                    rec(w, e, p, max);
                    p.pop();
                }
            }
        }
        if cfg.full > 0 {
            rec(w, &e, &mut p, cfg.full)
        }
    });
    if cfg.pruned > cfg.full {
        let e = eng(es, "pruned");
        ctx.bound(format!(
            "pruned: every byte string of up to {} bytes, a prefix being extended in all 256 ways unless both models have accepted or rejected it (then in {} ways, twice at most)",
            cfg.pruned,
            EXT.len()
        ));
        ctx.par(65536, false, |w, i| {
            let mut p = vec![(i >> 8) as u8];
            if settled(&p) && !EXT.contains(&(i as u8)) {
                return;
            }
            p.push(i as u8);
            dfs(w, &e, "", &mut p, cfg.pruned, &|_| (0..=255).collect())
        });
    }
    if cfg.alpha > 0 {
        let e = eng(es, "alpha");
        ctx.bound(format!(
            "alpha: strings of up to {} bytes over a reduced alphabet that depends on the model state (25 heads, 5 argument bytes, 5 string bytes)",
            cfg.alpha
        ));
        let first = reduced(&[]);
        let mut roots = vec![];
        for a in &first {
            for b in reduced(&[*a]) {
                roots.push(vec![*a, b]);
            }
        }
        ctx.par(roots.len(), false, |w, i| {
            let mut p = roots[i].clone();
            if settled(&p[..1]) && !EXT.contains(&p[1]) {
                return;
            }
            dfs(w, &e, "", &mut p, cfg.alpha, &reduced)
        });
    }
    heads(ctx, &eng(es, "heads"), cfg);
    utf8(ctx, &eng(es, "utf8"), cfg);
    holes(ctx, &eng(es, "holes"), cfg);
    sizes(ctx, &eng(es, "sizes"), cfg);
    places(ctx, &eng(es, "places"), cfg);
    nesting(ctx, &eng(es, "nest"), cfg);
    mutate(ctx, &eng(es, "mutate"), cfg);
}

fn heads(ctx: &Ctx, e: &Engine, cfg: Cfg) {
    let a16: Vec<u8> = vec![0, 1, 0x17, 0x18, 0x7f, 0x80, 0xfe, 0xff, 0x10, 0x14, 0x16, 0x20, 0x40, 0x55, 0xaa, 0xf7];
    let a8: Vec<u8> = vec![0, 1, 0x17, 0x18, 0x7f, 0x80, 0xff, 0xaa][..cfg.arg8.min(8)].to_vec();
    let a4: Vec<u8> = a16[..cfg.arg4.min(16)].to_vec();
    let all: Vec<u8> = (0..=255).collect();
    let a2 = if cfg.arg2_full { all.clone() } else { a16.clone() };
    ctx.bound(format!(
        "heads: every initial byte with every 1-byte argument, {} 2-byte argument values per byte, {}^4 4-byte and {}^8 8-byte arguments, alone and followed by one more byte",
        a2.len(),
        a4.len(),
        a8.len()
    ));
    ctx.par(256 * a2.len(), true, |w, i| {
        let b = (i / a2.len()) as u8;
        let first = a2[i % a2.len()];
        let mut one = |p: &[u8]| {
            w.case(e, "", p);
            let mut q = p.to_vec();
            q.push(0);
            w.case(e, "", &q);
        };
        match b & 31 {
            24 => {
                if i % a2.len() == 0 {
                    for x in &all {
                        one(&[b, *x])
                    }
                }
            }
            25 => {
                for x in &a2 {
                    one(&[b, first, *x])
                }
            }
            26 => {
                if let Some(k) = a4.iter().position(|x| *x == first) {
                    let n = a4.len();
                    for j in 0..n * n * n {
                        one(&[b, a4[k], a4[j / n / n], a4[j / n % n], a4[j % n]])
                    }
                }
            }
            27 => {
                if let Some(k) = a8.iter().position(|x| *x == first) {
                    let n = a8.len();
                    for j in 0..n.pow(7) {
                        let mut p = vec![b, a8[k]];
                        let mut j = j;
                        for _ in 0..7 {
                            p.push(a8[j % n]);
                            j /= n;
                        }
                        one(&p)
                    }
                }
            }
            _ => {
                if i % a2.len() == 0 {
                    one(&[b])
                }
            }
        }
    });
}

fn utf8(ctx: &Ctx, e: &Engine, cfg: Cfg) {
    let sym: Vec<u8> = vec![
        0x00, 0x61, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef,
        0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff,
    ];
    let all: Vec<u8> = (0..=255).collect();
    let three = if cfg.utf8_full { all.clone() } else { sym.clone() };
    let five: Vec<u8> = if cfg.big { sym.clone() } else { vec![0x61, 0x80, 0x9f, 0xa0, 0xbf, 0xc2, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xff] };
    ctx.bound(format!(
        "utf8: text contents of 0..2 bytes complete, 3 bytes over {} values, 4 bytes over {}, 5 bytes over {}; two-byte contents also as array element, map key and map value",
        three.len(),
        sym.len(),
        five.len()
    ));
    ctx.par(three.len(), false, |w, i| {
        for y in &three {
            for z in &three {
                w.case(e, "", &[0x63, three[i], *y, *z]);
            }
        }
    });
    ctx.par(256, false, |w, i| {
        for y in 0..=255u8 {
            let x = i as u8;
            w.case(e, "", &[0x62, x, y]);
            w.case(e, "", &[0x81, 0x62, x, y]);
            w.case(e, "", &[0xa1, 0x62, x, y, 0x00]);
            w.case(e, "", &[0xa1, 0x00, 0x62, x, y]);
        }
    });
    ctx.par(sym.len() * sym.len(), false, |w, i| {
        for z in &sym {
            for u in &sym {
                w.case(e, "", &[0x64, sym[i / sym.len()], sym[i % sym.len()], *z, *u]);
            }
        }
    });
    let n = five.len();
    ctx.par(n * n, false, |w, i| {
        for a in &five {
            for b in &five {
                for c in &five {
                    w.case(e, "", &[0x65, five[i / n], five[i % n], *a, *b, *c]);
                }
            }
        }
    });
}

fn holes(ctx: &Ctx, e: &Engine, cfg: Cfg) {
    let cs = contexts();
    let ps = payloads();
    let mut all: Vec<(Vec<u8>, Vec<u8>)> = vec![(vec![], vec![])];
    let mut level = all.clone();
    for _ in 0..cfg.ctx_depth {
        let mut next = vec![];
        for (a, b) in &level {
            for (c, d) in &cs {
                next.push(([&a[..], c].concat(), [d, &b[..]].concat()));
            }
        }
        all.extend(next.iter().cloned());
        level = next;
    }
    ctx.bound(format!(
        "holes: {} valid and faulty fragments in {} nested contexts (array element, key, value, tag content; depth {}), and all pairs of fragments in 8 two-hole contexts, also with trailing bytes",
        ps.len(),
        all.len(),
        cfg.ctx_depth
    ));
    ctx.par(all.len(), true, |w, i| {
        let (a, b) = &all[i];
        for p in &ps {
            w.case(e, "", &[&a[..], p, b].concat());
            if i < 160 {
                w.case(e, "", &[&a[..], p, b, &[0x00]].concat());
            }
        }
    });
    let two: Vec<[&[u8]; 3]> = vec![
        [&[0x82], &[], &[]],
        [&[0xa1], &[], &[]],
        [&[0xa2, 0x00], &[], &[0x00]],
        [&[0xa2], &[0x00], &[0x00]],
        [&[0xa2, 0x00], &[0x01], &[]],
        [&[0x82, 0xc1], &[0x81], &[]],
        [&[0xa2], &[0xa0], &[0x80]],
        [&[0x83], &[0x00], &[]],
    ];
    ctx.par(ps.len(), true, |w, i| {
        for t in &two {
            for q in &ps {
                w.case(e, "", &[t[0], &ps[i], t[1], q, t[2]].concat());
            }
        }
    });
}

/// Positions within a sequence of `n` places: all while there are few, else those next to the ends,
/// the middle and powers of two.
pub fn positions(n: usize, all_below: usize) -> Vec<usize> {
    if n <= all_below {
        return (0..n).collect();
    }
    let mut v: Vec<usize> = vec![0, 1, 2, n / 2, n - 2, n - 1];
    let mut k = 8;
    while k < n {
        v.extend([k - 1, k, k + 1]);
        k *= 2;
    }
    v.retain(|p| *p < n);
    v.sort();
    v.dedup();
    v
}

/// Long strings, arrays and maps with one fault, at each place.
fn places(ctx: &Ctx, e: &Engine, cfg: Cfg) {
    let (lens, all): (Vec<usize>, usize) = match cfg.places {
        0 => ([5, 9, 17, 24, 25, 33, 66, 257].to_vec(), 33),
        1 => ((4..=70).chain([96, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4097]).collect(), 130),
        _ => ((4..=140).chain([192, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4095, 4096, 4097, 8193]).collect(), 600),
    };
    ctx.bound(format!(
        "places: strings, arrays and maps (5 kinds of keys) of {} lengths up to {}, with one fault of each kind at every place (lengths up to {all}) or at ends and around powers of two",
        lens.len(),
        lens.last().unwrap()
    ));
    const BAD: [&[u8]; 12] = [
        &[0x18, 0x17], &[0x19, 0, 0xff], &[0x1c], &[0x3f], &[0x5f], &[0x61, 0xff], &[0xe0], &[0xf8, 0x20], &[0xf9, 0, 0], &[0xff], &[0x81], &[],
    ];
    let mut work: Vec<(usize, usize)> = lens.iter().flat_map(|n| positions(*n, all).into_iter().map(|p| (*n, p))).collect();
    work.reverse();
    let key = |kind: usize, i: usize| -> Vec<u8> {
        match kind {
            0 => M::U(i as u64),
            1 => M::N(i as u64),
            2 => M::T(format!("{i:05}")),
            3 => M::T(format!("{}{i:05}", "x".repeat(60))),
            _ => M::A(vec![M::U(1), M::B(vec![(i >> 8) as u8, i as u8])]),
        }
        .enc_raw()
    };
    ctx.par(work.len(), false, |w, i| {
        let (n, p) = work[i];
        // Strings.
        for bad in [&[0xff][..], &[0x80], &[0xc3], &[0xc0, 0x80], &[0xe2, 0x82], &[0xed, 0xa0, 0x80], &[0xf0, 0x9f, 0x92], &[0xc3, 0xa9], &[0xf0, 0x9f, 0x92, 0xa9]] {
            for filler in ["a", "\u{e9}", "\u{20ac}", "\u{1f4a9}"] {
                let f = filler.as_bytes();
                let mut c: Vec<u8> = f.iter().cycle().take(p / f.len() * f.len()).copied().collect();
                c.resize(p, b'b');
                c.extend(bad);
                if c.len() > n {
                    continue;
                }
                let room = n - c.len();
                c.resize(c.len() + room % f.len(), b'c');
                c.extend(f.iter().cycle().take(n - c.len()));
                let mut d = vec![];
                head(3, n as u64, &mut d);
                d.extend(c);
                w.case(e, "", &d);
            }
        }
        // Arrays.
        for bad in BAD {
            let mut d = vec![];
            head(4, n as u64, &mut d);
            for j in 0..n {
                if j == p {
                    d.extend(bad)
                } else {
                    d.push((j % 24) as u8)
                }
            }
            w.case(e, "", &d);
        }
        // Maps.
        for kind in 0..5 {
            let map = |order: &dyn Fn(usize) -> usize, at: Option<(&[u8], bool)>| {
                let mut d = vec![];
                head(5, n as u64, &mut d);
                for j in 0..n {
                    match at {
                        Some((bad, false)) if j == p => d.extend(bad),
                        _ => d.extend(key(kind, order(j))),
                    }
                    match at {
                        Some((bad, true)) if j == p => d.extend(bad),
                        _ => d.push((j % 24) as u8),
                    }
                }
                d
            };
            let id = |j: usize| j;
            for bad in BAD {
                w.case(e, "", &map(&id, Some((bad, true))));
                w.case(e, "", &map(&id, Some((bad, false))));
            }
            w.case(e, "", &map(&id, None));
            // The key at the place is its predecessor's, the first, the last, or one swapped with its neighbour.
            for (a, b) in [(p, p.saturating_sub(1)), (p, 0), (p, n - 1), (p, p / 2), (n - 1, p)] {
                w.case(e, "", &map(&|j| if j == a { b } else { j }, None));
            }
            w.case(e, "", &map(&|j| if j == p { (p + 1) % n } else if j == (p + 1) % n { p } else { j }, None));
            w.case(e, "", &map(&|j| (j + p) % n, None));
        }
    });
}

fn sizes(ctx: &Ctx, e: &Engine, cfg: Cfg) {
    let mut ns: Vec<usize> = (0..=40).chain(250..=260).chain([100, 127, 128, 129, 1000, 4096, 65534, 65535, 65536, 65537]).collect();
    if cfg.big {
        ns.extend(41..250);
        ns.extend([131072, 1 << 20, (1 << 24) - 1, 1 << 24]);
    }
    ctx.bound(format!(
        "sizes: byte and text strings, arrays, maps with {} lengths up to {}, each head width, content exact, one short and one over",
        ns.len(),
        ns.iter().max().unwrap()
    ));
    let mut items = vec![];
    for n in ns {
        for major in 2..6u8 {
            for w in [0usize, 1, 2, 4, 8] {
                if (w == 0 && n >= 24) || (w > 0 && w < 8 && n >> (8 * w) != 0) {
                    continue;
                }
                if major > 3 && n > 70000 {
                    continue;
                }
                items.push((n, major, w));
            }
        }
    }
    // Large ones first.
    items.sort_by_key(|x| std::cmp::Reverse(x.0));
    ctx.par(items.len(), true, |wk, i| {
        let (n, major, w) = items[i];
        let mut b = vec![];
        head_w(major, w, n as u64, &mut b);
        match major {
            2 => (0..n).for_each(|i| b.push((i * 7) as u8)),
            3 => (0..n).for_each(|i| b.push(0x20 + (i * 7 % 0x5f) as u8)),
            4 => (0..n).for_each(|i| M::U(i as u64 * 3 % 300).enc_raw_to(&mut b)),
            _ => (0..n).for_each(|i| {
                M::U(i as u64).enc_raw_to(&mut b);
                M::N(i as u64 % 30).enc_raw_to(&mut b)
            }),
        }
        wk.case(e, "", &b);
        let mut c = b.clone();
        c.pop();
        wk.case(e, "", &c);
        b.push(0);
        wk.case(e, "", &b);
    });
}

/// Head bytes of one nesting step, and what follows the inner item.
fn step_bytes(s: Step) -> (&'static [u8], &'static [u8]) {
    match s {
        Step::Arr => (&[0x81], &[]),
        Step::ArrFirst => (&[0x82], &[0x00]),
        Step::ArrLast => (&[0x82, 0x00], &[]),
        Step::Key => (&[0xa1], &[0x00]),
        Step::Val => (&[0xa1, 0x00], &[]),
        Step::LastKey => (&[0xa2, 0x00, 0x00], &[0x01]),
        Step::LastVal => (&[0xa2, 0x00, 0x00, 0x01], &[]),
        Step::Tag => (&[0xc0], &[]),
    }
}

pub fn nested_bytes(steps: &[Step], inner: &[u8]) -> Vec<u8> {
    let mut pre = vec![];
    let mut post: Vec<&[u8]> = vec![];
    for s in steps {
        let (a, b) = step_bytes(*s);
        pre.extend(a);
        post.push(b);
    }
    pre.extend(inner);
    for b in post.iter().rev() {
        pre.extend(*b);
    }
    pre
}

fn nesting(ctx: &Ctx, e: &Engine, cfg: Cfg) {
    let depths: Vec<usize> = (0..=6).chain(61..=68).chain(124..=130).collect();
    let inner: Vec<&[u8]> = vec![&[0x00], &[0x80], &[0xa0], &[], &[0x1c], &[0x18], &[0x61, 0x61], &[0xf9, 0x00, 0x16]];
    let huge: Vec<usize> = if cfg.big { vec![1000, 100_000, 1_000_000] } else { vec![1000, 100_000] };
    ctx.bound(format!(
        "nest: {} step kinds, homogeneous and 2-periodic, at depths {:?}, around {} innermost fragments; homogeneous chains of {:?} levels",
        STEPS.len(),
        depths,
        inner.len(),
        huge
    ));
    ctx.par(64, true, |w, i| {
        for d in &depths {
            let steps: Vec<Step> = (0..*d).map(|k| STEPS[if k % 2 == 0 { i / 8 } else { i % 8 }]).collect();
            for p in &inner {
                w.case(e, "", &nested_bytes(&steps, p));
            }
        }
        if i % 8 == i / 8 {
            for d in &huge {
                let steps = vec![STEPS[i / 8]; *d];
                w.case(e, "", &nested_bytes(&steps, &[0x00]));
                w.case(e, "", &nested_bytes(&steps, &[]));
            }
        }
    });
}

fn mutate(ctx: &Ctx, e: &Engine, cfg: Cfg) {
    let docs = documents(cfg.mutate_nodes);
    ctx.bound(format!(
        "mutate: {} documents (all trees of up to {} nodes and structured examples): every prefix, every deletion, every substitution by any byte, every insertion and adjacent pair of substitutions from {} bytes",
        docs.len(),
        cfg.mutate_nodes,
        INTERESTING.len()
    ));
    ctx.par(docs.len(), true, |w, i| {
        let d = &docs[docs.len() - 1 - i];
        w.case(e, "", d);
        for k in 0..d.len() {
            w.case(e, "", &d[..k]);
            let mut c = d.clone();
            c.remove(k);
            w.case(e, "", &c);
            let full = d.len() > 6 || cfg.big;
            for b in 0..=255u8 {
                if !full && !INTERESTING.contains(&b) {
                    continue;
                }
                let mut c = d.clone();
                c[k] = b;
                w.case(e, "", &c);
            }
            for b in INTERESTING {
                let mut c = d.clone();
                c.insert(k, b);
                w.case(e, "", &c);
                if k + 1 < d.len() {
                    for b2 in INTERESTING {
                        let mut c = d.clone();
                        c[k] = b;
                        c[k + 1] = b2;
                        w.case(e, "", &c);
                    }
                }
            }
        }
    });
}
