//! Finite universes of data items.
use crate::model::*;

/// Integers around every width boundary.
pub fn boundary_u64() -> Vec<u64> {
    let mut v = vec![];
    for i in 0..=26 {
        v.push(i);
    }
    for k in 5..64 {
        let p = 1u64 << k;
        for d in [p.wrapping_sub(2), p - 1, p, p + 1, p + 2, p | p >> 1] {
            v.push(d);
        }
    }
    for d in 0..4 {
        v.push(u64::MAX - d);
    }
    v.extend([100, 200, 255, 1000, 1000000, 0x0123456789abcdef, 0xfedcba9876543210, 0x00ff00ff00ff00ff]);
    v.sort();
    v.dedup();
    v
}

/// A few integers, one or two per width.
pub fn few_u64() -> Vec<u64> {
    vec![0, 1, 23, 24, 255, 256, 65535, 65536, 0xffff_ffff, 0x1_0000_0000, 1 << 63, u64::MAX]
}

pub fn texts() -> Vec<String> {
    ["", "a", "b", "z", "aa", "ab", "ba", "aaa", "\u{0}", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{d7ff}", "\u{e000}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "é", "水", "aé"]
        .iter()
        .map(|s| s.to_string())
        .collect()
}

pub fn byte_strings() -> Vec<Vec<u8>> {
    vec![
        vec![],
        vec![0],
        vec![1],
        vec![0x61],
        vec![0x7f],
        vec![0x80],
        vec![0xff],
        vec![0, 0],
        vec![0, 1],
        vec![1, 0],
        vec![0xff, 0],
        vec![0, 0xff],
        vec![0xff, 0xff],
        vec![0; 3],
        vec![0; 23],
        vec![0; 24],
        vec![0xff; 23],
        vec![1; 24],
    ]
}

/// Scalars and small containers that sit at boundaries.
pub fn leaves() -> Vec<M> {
    let mut v = vec![];
    for n in few_u64() {
        v.push(M::U(n));
        v.push(M::N(n));
    }
    v.push(M::U(2));
    v.push(M::U(10));
    v.push(M::N((1 << 63) - 1));
    v.extend(byte_strings().into_iter().map(M::B));
    v.extend(texts().into_iter().map(M::T));
    v.push(M::T("x".repeat(23)));
    v.push(M::T("x".repeat(24)));
    v.extend([FALSE, TRUE, NULL, UNDEF]);
    v
}

/// Keys of every kind, including containers that differ in one place only.
pub fn keys() -> Vec<M> {
    let mut v = leaves();
    let u = |n| M::U(n);
    v.extend([
        M::A(vec![]),
        M::A(vec![u(0)]),
        M::A(vec![u(1)]),
        M::A(vec![u(24)]),
        M::A(vec![M::N(0)]),
        M::A(vec![t("")]),
        M::A(vec![t("a")]),
        M::A(vec![M::B(vec![])]),
        M::A(vec![NULL]),
        M::A(vec![M::A(vec![])]),
        M::A(vec![M::Map(vec![])]),
        M::A(vec![u(0), u(0)]),
        M::A(vec![u(0), u(1)]),
        M::A(vec![u(1), u(0)]),
        M::A(vec![u(0); 24]),
        M::Map(vec![]),
        M::Map(vec![(u(0), u(0))]),
        M::Map(vec![(u(0), u(1))]),
        M::Map(vec![(u(1), u(0))]),
        M::Map(vec![(t("a"), u(0))]),
        M::Map(vec![(u(0), M::A(vec![]))]),
        M::Map(vec![(M::A(vec![]), u(0))]),
        M::Map(vec![(M::Map(vec![]), u(0))]),
        M::Map(vec![(M::Map(vec![(u(0), u(1))]), u(0))]),
        M::Map(vec![(u(0), u(0)), (u(1), u(0))]),
        M::Map(vec![(u(0), u(0)), (u(1), u(1))]),
        M::Map(vec![(u(0), u(0)), (u(2), u(0))]),
        M::Map(vec![(u(0), u(1)), (u(1), u(0))]),
        M::Map(vec![(u(1), u(0)), (u(2), u(0))]),
        tag(0, u(0)),
        tag(0, u(1)),
        tag(1, u(0)),
        tag(1, t("a")),
        tag(2, M::B(vec![1])),
        tag(24, u(0)),
        tag(u64::MAX, u(0)),
        tag(0, tag(0, u(0))),
        tag(0, M::Map(vec![(u(0), u(0))])),
        tag(0, M::A(vec![u(0)])),
    ]);
    v
}

/// All trees of exactly `n` nodes over `leaves` (an empty array or map counts as a leaf), with map
/// entries in every order, duplicate keys included.
pub fn trees_exact(n: usize, leaves: &[M], tags: &[u64]) -> Vec<Vec<M>> {
    // sizes[s] = trees of s nodes
    let mut sizes: Vec<Vec<M>> = vec![vec![]];
    for s in 1..=n {
        let mut out = vec![];
        if s == 1 {
            out.extend(leaves.iter().cloned());
            out.push(M::A(vec![]));
            out.push(M::Map(vec![]));
        } else {
            for seq in sequences(s - 1, &sizes) {
                if seq.len() % 2 == 0 {
                    let mut m = vec![];
                    for c in seq.chunks(2) {
                        m.push((c[0].clone(), c[1].clone()));
                    }
                    out.push(M::Map(m));
                }
                out.push(M::A(seq));
            }
            for t in tags {
                for m in &sizes[s - 1] {
                    out.push(M::Tag(*t, Box::new(m.clone())));
                }
            }
        }
        sizes.push(out);
    }
    sizes
}

/// All non-empty sequences of trees with `total` nodes together.
fn sequences(total: usize, sizes: &[Vec<M>]) -> Vec<Vec<M>> {
    let mut out = vec![];
    fn rec(left: usize, sizes: &[Vec<M>], cur: &mut Vec<M>, out: &mut Vec<Vec<M>>) {
        if left == 0 {
            out.push(cur.clone());
            return;
        }
        for s in 1..=left {
            for m in &sizes[s] {
                cur.push(m.clone());
                rec(left - s, sizes, cur, out);
                cur.pop();
            }
        }
    }
    rec(total, sizes, &mut vec![], &mut out);
    out
}

pub fn small_leaves() -> Vec<M> {
    vec![M::U(0), M::U(24), M::N(0), M::B(vec![1]), t("a"), NULL]
}

/// All trees of up to `n` nodes.
pub fn trees(n: usize, leaves: &[M], tags: &[u64]) -> Vec<M> {
    trees_exact(n, leaves, tags).into_iter().flatten().collect()
}

/// Long values that differ in one place: per kind and length, one and its variants.
pub fn long_families(thorough: bool) -> Vec<(String, Vec<M>)> {
    let mut out = vec![];
    let mut lens = vec![8, 9, 16, 17, 23, 24, 25, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4097, 65535, 65536];
    if thorough {
        lens.extend([15, 31, 63, 100, 511, 512, 513, 1023, 1024, 1025, 4095, 4096]);
    }
    for n in lens {
        let ps = if n > 5000 { vec![0, n / 2, n - 1] } else { crate::bytesgen::positions(n, if thorough { 140 } else { 33 }) };
        for kind in 0..7 {
            if n > 5000 && kind > 1 {
                continue;
            }
            if kind == 6 && n > 120 {
                continue;
            }
            let mk = |at: Option<(usize, u8)>, n: usize| -> M {
                let sym = |i: usize| match at {
                    Some((p, d)) if p == i => d,
                    _ => 1,
                };
                match kind {
                    0 => M::B((0..n).map(|i| [0, 0x41, 0xff][sym(i) as usize]).collect()),
                    1 => M::T((0..n).map(|i| ['a', 'b', 'c'][sym(i) as usize]).collect()),
                    2 => M::A((0..n).map(|i| M::U([0, 23, 24][sym(i) as usize])).collect()),
                    3 => M::A((0..n).map(|i| [M::U(1), t("a"), M::A(vec![t("a")])][sym(i) as usize].clone()).collect()),
                    // A value, or a key, of a map.
                    4 => M::Map((0..n).map(|i| (M::U(i as u64), M::U(sym(i) as u64))).collect()),
                    5 => M::Map((0..n).map(|i| (M::U(3 * i as u64 + sym(i) as u64), NULL)).collect()),
                    _ => (0..n).fold(M::U(0), |m, i| match sym(i) {
                        0 => M::A(vec![m]),
                        1 => tag(1, m),
                        _ => tag(2, m),
                    }),
                }
            };
            let mut f = vec![mk(None, n), mk(None, n - 1), mk(None, n + 1)];
            for p in &ps {
                f.push(mk(Some((*p, 0)), n));
                f.push(mk(Some((*p, 2)), n));
            }
            out.push((format!("{kind}/{n}"), f));
        }
    }
    out
}

/// All permutations of 0..n.
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    fn rec(n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !cur.contains(&i) {
                cur.push(i);
                rec(n, cur, out);
                cur.pop();
            }
        }
    }
    rec(n, &mut vec![], &mut out);
    out
}

/// Kinds of one nesting step.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Step {
    Arr,
    ArrFirst,
    ArrLast,
    Key,
    Val,
    LastKey,
    LastVal,
    Tag,
}
pub const STEPS: [Step; 8] = [
    Step::Arr,
    Step::ArrFirst,
    Step::ArrLast,
    Step::Key,
    Step::Val,
    Step::LastKey,
    Step::LastVal,
    Step::Tag,
];

pub fn nest_step(s: Step, m: M) -> M {
    match s {
        Step::Arr => M::A(vec![m]),
        Step::ArrFirst => M::A(vec![m, M::U(0)]),
        Step::ArrLast => M::A(vec![M::U(0), m]),
        Step::Key => M::Map(vec![(m, M::U(0))]),
        Step::Val => M::Map(vec![(M::U(0), m)]),
        // 0 sorts before every container.
        Step::LastKey => M::Map(vec![(M::U(0), M::U(0)), (m, M::U(1))]),
        Step::LastVal => M::Map(vec![(M::U(0), M::U(0)), (M::U(1), m)]),
        Step::Tag => tag(0, m),
    }
}

/// `steps` from the outside in, around `inner`.
pub fn nest(steps: &[Step], inner: M) -> M {
    let mut m = inner;
    for s in steps.iter().rev() {
        // LastKey needs a key above 0: a container or tag always is.
        m = nest_step(*s, m);
    }
    m
}

/// Values for properties that quantify over every value. `f` gets the raw encoding (map entries in
/// the order in which the value holds them).
pub mod space {
    use super::*;
    use crate::explore::{Check, Ctx, Engine, Worker};

    pub const NAMES: [&str; 7] = ["trees", "ints", "lengths", "chains", "orders", "contexts", "long"];

    pub fn engines(check: Check) -> Vec<Engine> {
        NAMES.iter().map(|n| Engine { name: n, check }).collect()
    }

    fn raw(w: &mut Worker, e: &Engine, m: &M) {
        w.case(e, "", &m.enc_raw())
    }

    pub fn explore(ctx: &Ctx, es: &[Engine]) {
        let eng = |n: &str| *es.iter().find(|e| e.name == n).unwrap();
        let thorough = ctx.thorough;

        let e = eng("trees");
        let n = if thorough { 6 } else { 5 };
        let vs = trees(n, &small_leaves(), &[1]);
        ctx.bound(format!("trees: all {} trees of up to {} nodes over 8 leaves, arrays, maps (entries in every order, duplicates included) and a tag", vs.len(), n));
        let chunk = 512;
        ctx.par(vs.len().div_ceil(chunk), true, |w, i| {
            for m in &vs[i * chunk..(i * chunk + chunk).min(vs.len())] {
                raw(w, &e, m)
            }
        });
        // Maps with three and four entries over tiny keys, so that several levels hold maps.
        let tiny = trees(3, &[M::U(0), M::U(1)], &[]);
        let tk: Vec<M> = tiny.iter().filter(|m| m.depth() > 0).cloned().take(60).collect();
        ctx.bound(format!("trees: maps of three entries over all ordered triples of {} container keys", tk.len()));
        ctx.par(tk.len(), true, |w, i| {
            for b in &tk {
                for c in &tk {
                    raw(w, &e, &M::Map(vec![(tk[i].clone(), M::U(0)), (b.clone(), M::U(1)), (c.clone(), M::U(2))]));
                }
            }
        });

        // Keys that hold maps somewhere inside, with their entries in any order.
        let u = |n| M::U(n);
        let inner: Vec<M> = [
            vec![(0, 0), (1, 1)],
            vec![(1, 1), (0, 0)],
            vec![(0, 1), (1, 0)],
            vec![(1, 0), (0, 1)],
            vec![(0, 0), (2, 0)],
            vec![(2, 0), (0, 0)],
            vec![(0, 0), (0, 1)],
            vec![(0, 0), (1, 1), (2, 2)],
            vec![(2, 2), (0, 0), (1, 1)],
            vec![(1, 1), (2, 2), (0, 0)],
        ]
        .iter()
        .map(|v| M::Map(v.iter().map(|(a, b)| (u(*a), u(*b))).collect()))
        .collect();
        let place = |k: usize, m: M| match k {
            0 => M::A(vec![m]),
            1 => M::A(vec![u(0), m, u(0)]),
            2 => tag(7, m),
            3 => M::Map(vec![(m, u(0))]),
            4 => M::Map(vec![(u(0), m)]),
            5 => M::Map(vec![(t("z"), u(0)), (u(0), m)]),
            6 => M::Map(vec![(M::A(vec![u(0)]), u(0)), (m, u(0)), (u(3), u(0))]),
            _ => M::Map(vec![(u(9), u(1)), (u(8), m), (u(7), u(2))]),
        };
        let mut paths: Vec<Vec<usize>> = vec![vec![]];
        for from in 0..if thorough { 585 } else { 73 } {
            for k in 0..8 {
                let mut p = paths[from].clone();
                p.push(k);
                paths.push(p);
            }
        }
        ctx.bound(format!("trees: maps of two and three entries whose keys hold two of {} small maps (entries in any order, or twice) at each of {} places up to {} levels down", inner.len(), paths.len(), paths[paths.len() - 1].len()));
        ctx.par(paths.len(), true, |w, i| {
            let at = |m: &M| paths[i].iter().fold(m.clone(), |m, k| place(*k, m));
            for a in &inner {
                for b in &inner {
                    raw(w, &e, &M::Map(vec![(at(a), u(0)), (at(b), u(1))]));
                    raw(w, &e, &M::Map(vec![(at(a), u(0)), (t("m"), u(2)), (at(b), u(1))]));
                    raw(w, &e, &M::A(vec![M::Map(vec![(u(0), M::Map(vec![(at(a), u(0)), (at(b), u(1))]))])]));
                }
            }
        });

        let e = eng("ints");
        let mut ns = boundary_u64();
        ns.extend(0..if thorough { 1 << 20 } else { 70000 });
        // Values whose bytes are 0, 1 or ff in every combination.
        for i in 0..6561u64 {
            let (mut v, mut j) = (0u64, i);
            for _ in 0..8 {
                v = v << 8 | [0, 1, 0xff][(j % 3) as usize];
                j /= 3;
            }
            ns.push(v);
        }
        ns.sort();
        ns.dedup();
        ctx.bound(format!("ints: {} magnitudes (0..70000, around each power of two, all byte patterns over 00/01/ff) as unsigned, negative and tag", ns.len()));
        let chunk = 1024;
        ctx.par(ns.len().div_ceil(chunk), true, |w, i| {
            for n in &ns[i * chunk..(i * chunk + chunk).min(ns.len())] {
                raw(w, &e, &M::U(*n));
                raw(w, &e, &M::N(*n));
                raw(w, &e, &tag(*n, M::U(0)));
            }
        });

        let e = eng("lengths");
        let mut ls: Vec<usize> = (0..=300).chain([1000, 4095, 4096, 65534, 65535, 65536, 65537, 70000]).collect();
        if thorough {
            ls.extend([1 << 20, (1 << 24) - 1, 1 << 24]);
        }
        ls.reverse();
        ctx.bound(format!("lengths: byte and text strings, arrays and maps (ascending, descending and rotated entries) of {} lengths up to {}", ls.len(), ls[0]));
        ctx.par(ls.len() * 6, true, |w, i| {
            let n = ls[i / 6];
            if n > 80000 && i % 6 > 1 {
                return;
            }
            match i % 6 {
                0 => raw(w, &e, &M::B((0..n).map(|i| (i * 7) as u8).collect())),
                1 => raw(w, &e, &M::T((0..n).map(|i| (b' ' + (i * 7 % 95) as u8) as char).collect())),
                2 => raw(w, &e, &M::A((0..n).map(|i| M::U(i as u64 % 300)).collect())),
                k => {
                    let mut m: Vec<(M, M)> = (0..n)
                        .map(|i| {
                            let key = match i % 3 {
                                0 => M::U(i as u64),
                                1 => M::N(i as u64),
                                _ => M::T(format!("{i}")),
                            };
                            (key, M::U(i as u64 % 30))
                        })
                        .collect();
                    match k {
                        3 => {}
                        4 => m.reverse(),
                        _ => {
                            if n > 0 {
                                m.rotate_left(n / 3)
                            }
                        }
                    }
                    raw(w, &e, &M::Map(m));
                }
            }
        });

        let e = eng("chains");
        let depths: Vec<usize> = (0..=8).chain([16, 32]).chain(62..=66).chain(124..=131).collect();
        ctx.bound(format!("chains: nesting of 8 step kinds, homogeneous and 2-periodic, at depths {depths:?} around 4 innermost items"));
        ctx.par(64, true, |w, i| {
            for d in &depths {
                let steps: Vec<Step> = (0..*d).map(|k| STEPS[if k % 2 == 0 { i / 8 } else { i % 8 }]).collect();
                for inner in [M::U(0), M::A(vec![]), M::Map(vec![]), M::Map(vec![(M::U(1), NULL), (M::U(0), NULL)])] {
                    let scalar = inner.depth() == 0 && matches!(inner, M::U(_));
                    if scalar && steps.last() == Some(&Step::LastKey) {
                        // The key would equal its sibling.
                        continue;
                    }
                    raw(w, &e, &nest(&steps, inner));
                }
            }
        });

        let e = eng("orders");
        let ks = keys();
        let nperm = if thorough { 8 } else { 7 };
        ctx.bound(format!("orders: all ordered pairs (duplicates included) of {} keys of every kind, top level, nested and inside a map key; all permutations of maps of up to {} entries of mixed key kinds, and each with one key duplicated (up to 5 entries)", ks.len(), nperm));
        ctx.par(ks.len(), true, |w, i| {
            for b in &ks {
                let m = M::Map(vec![(ks[i].clone(), M::U(0)), (b.clone(), M::U(1))]);
                raw(w, &e, &m);
                raw(w, &e, &M::A(vec![M::U(5), tag(1, m.clone())]));
                raw(w, &e, &M::Map(vec![(m.clone(), M::U(0))]));
                raw(w, &e, &M::Map(vec![(M::U(0), m.clone())]));
                raw(w, &e, &M::Map(vec![(M::A(vec![m.clone()]), M::U(0)), (M::U(0), NULL)]));
            }
        });
        let mixed = [
            M::U(0),
            M::U(24),
            M::N(0),
            M::B(vec![0, 0]),
            t("b"),
            t("aa"),
            M::A(vec![M::U(0)]),
            M::Map(vec![(M::U(1), M::U(0)), (M::U(0), M::U(0))]),
        ];
        let texts = [t("a"), t("b"), t("aa"), t("ab"), t("ba"), t(""), t("\u{e9}"), t("zzzzzzzzzzzzzzzzzzzzzzzz")];
        let maps: Vec<M> = (0..8u64).map(|i| M::Map((0..=i % 3).rev().map(|j| (M::U(j), M::U(i))).collect())).collect();
        for pool in [&mixed[..], &texts, &maps] {
            for n in 1..=nperm.min(pool.len()) {
                let ps = permutations(n);
                ctx.par(ps.len().div_ceil(64), true, |w, i| {
                    for p in &ps[i * 64..(i * 64 + 64).min(ps.len())] {
                        let mut m: Vec<(M, M)> = p.iter().map(|k| (pool[*k].clone(), M::U(*k as u64))).collect();
                        raw(w, &e, &M::Map(m.clone()));
                        if n <= 5 {
                            raw(w, &e, &M::Map(vec![(M::U(9), M::Map(m.clone()))]));
                            raw(w, &e, &M::Map(vec![(M::Map(m.clone()), M::U(9))]));
                            for at in 0..=n {
                                for k in 0..n {
                                    let mut d = m.clone();
                                    d.insert(at, (pool[k].clone(), M::U(77)));
                                    raw(w, &e, &M::Map(d));
                                }
                            }
                        }
                        m.clear();
                    }
                });
            }
        }

        long(ctx, &eng("long"));

        let e = eng("contexts");
        let ls = keys();
        let depth = if thorough { 5 } else { 4 };
        ctx.bound(format!("contexts: {} items in every chain of up to {} of 8 nesting steps", ls.len(), depth));
        let mut chains: Vec<Vec<Step>> = vec![vec![]];
        let mut lvl = chains.clone();
        for _ in 0..depth {
            lvl = lvl.iter().flat_map(|c| STEPS.iter().map(|s| [&c[..], &[*s]].concat()).collect::<Vec<_>>()).collect();
            chains.extend(lvl.iter().cloned());
        }
        ctx.par(chains.len(), true, |w, i| {
            for m in &ls {
                raw(w, &e, &nest(&chains[i], m.clone()))
            }
        });
    }

    /// Maps of many entries with or without one pair of equal keys, and maps of two long keys.
    fn long(ctx: &Ctx, e: &Engine) {
        let thorough = ctx.thorough;
        let lens: Vec<usize> = if thorough {
            (6..=140).chain([255, 256, 257, 511, 512, 513, 1000, 1025, 4097]).collect()
        } else {
            (6..=70).chain([127, 128, 129, 255, 256, 257, 1000]).collect()
        };
        let full = if thorough { 40 } else { 24 };
        ctx.bound(format!("long: maps of {} sizes up to {} with 5 kinds of keys, ascending, descending, interleaved, with two neighbours swapped at each place, and with every pair of places (sizes up to {full}), or every place and the first, last or next one, holding equal keys", lens.len(), lens.last().unwrap()));
        let mut work: Vec<(usize, usize)> = lens.iter().flat_map(|n| crate::bytesgen::positions(*n, 140).into_iter().map(|p| (*n, p))).collect();
        work.reverse();
        let key = |kind: usize, i: usize| match kind {
            0 => M::U(i as u64),
            1 => M::T(format!("{i}")),
            2 => M::T(format!("{}{i:05}", "x".repeat(40))),
            3 => M::Map(vec![(M::U(1), M::U(i as u64)), (M::U(0), NULL)]),
            _ => match i % 5 {
                0 => M::N(i as u64),
                1 => M::B(vec![i as u8; i % 40]),
                2 => M::A(vec![M::U(i as u64)]),
                3 => tag(i as u64, NULL),
                _ => M::U(i as u64),
            },
        };
        ctx.par(work.len(), false, |w, i| {
            let (n, p) = work[i];
            for kind in 0..5 {
                for order in 0..3 {
                    let ord = |j: usize| match order {
                        0 => j,
                        1 => n - 1 - j,
                        // 0, n - 1, 1, n - 2, ...
                        _ if j % 2 == 0 => j / 2,
                        _ => n - 1 - j / 2,
                    };
                    let mut emit = |f: &dyn Fn(usize) -> usize| {
                        let m = (0..n).map(|j| (key(kind, f(ord(j))), M::U((j % 30) as u64))).collect();
                        raw(w, e, &M::Map(m));
                    };
                    if p == 0 {
                        emit(&|j| j);
                    }
                    let q = (p + 1) % n;
                    emit(&|j| if j == p { q } else if j == q { p } else { j });
                    let others: Vec<usize> = if n <= full { (0..n).collect() } else { vec![0, q, n - 1, n / 2] };
                    for o in others {
                        if o != p {
                            emit(&|j| if j == p { o } else { j });
                        }
                    }
                }
            }
        });

        let fams = long_families(thorough);
        ctx.bound(format!("long: maps of two keys of {} families of long values that differ in one place, in both orders and equal", fams.len()));
        ctx.par(fams.len(), true, |w, i| {
            let f = &fams[i].1;
            for (j, b) in f.iter().enumerate() {
                for k in [0, j.saturating_sub(1), j / 2] {
                    let a = &f[k];
                    raw(w, e, &M::Map(vec![(a.clone(), M::U(0)), (b.clone(), M::U(1))]));
                    raw(w, e, &M::Map(vec![(b.clone(), M::U(0)), (a.clone(), M::U(1))]));
                }
            }
        });
    }
}
