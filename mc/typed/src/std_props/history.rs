//! C24: independence of what ran before.
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::sync::mpsc;
use std::sync::OnceLock;

use mccore::explore::{no_panic, step, Ctx, Prop};
use mccore::model::*;
use mccore::valgen::{self, Step};
use oasis_cbor::{reader, writer, Decode, DecodeError, Encode, Value};
use serde::{Deserialize, Serialize};

use super::eng;
use mctyped::checks::Out;
use mctyped::sample::*;

/// A type whose own code panics or fails while a larger item is coded.
struct Bomb(u8);
impl Encode for Bomb {
    fn into_cbor_value(self) -> Value {
        if self.0 == 1 {
            panic!("bomb");
        }
        Value::Unsigned(self.0 as u64)
    }
}
impl Decode for Bomb {
    fn try_from_cbor_value(v: Value) -> Result<Self, DecodeError> {
        match v {
            Value::Unsigned(1) => panic!("bomb"),
            Value::Unsigned(2) => Err(DecodeError::UnexpectedIntegerSize),
            Value::Unsigned(n) => Ok(Bomb(n as u8)),
            _ => Err(DecodeError::UnexpectedType),
        }
    }
}
impl Serialize for Bomb {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            1 => panic!("bomb"),
            2 => Err(serde::ser::Error::custom("bomb")),
            n => s.serialize_u8(n),
        }
    }
}
impl<'de> Deserialize<'de> for Bomb {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        match u8::deserialize(d)? {
            1 => panic!("bomb"),
            2 => Err(serde::de::Error::custom("bomb")),
            n => Ok(Bomb(n)),
        }
    }
}

fn chain(s: Step, n: usize) -> M {
    valgen::nest(&vec![s; n], M::U(0))
}
fn bytes(m: M) -> Vec<u8> {
    m.enc().unwrap()
}
fn write(v: Value) -> String {
    let mut out = vec![0xaa];
    match writer::write(v, &mut out) {
        Ok(()) => hex(&out),
        Err(e) => format!("{e:?}"),
    }
}
fn ser<T: Serialize>(t: &T) -> String {
    format!("{:?}", oasis_cbor::serde::to_vec(t).map(|b| hex(&b)).map_err(|e| format!("{e:?}")))
}

/// So many arrays and maps in turn, the innermost one cut short.
fn cut(n: usize) -> Vec<u8> {
    let mut b: Vec<u8> = (0..n).flat_map(|i| if i % 2 == 0 { vec![0x82, 0x01] } else { vec![0xa1, 0x61, 0x61] }).collect();
    b.pop();
    b
}
struct Deep(u8);
impl Serialize for Deep {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            0 => s.serialize_str("end"),
            n if n % 2 == 0 => s.collect_map([(Deep(0), Deep(n - 1))]),
            n => s.collect_seq([Deep(0), Deep(n - 1)]),
        }
    }
}

type Op = (&'static str, fn() -> String);

fn pairs(n: u64) -> Vec<(Value, Value)> {
    (0..n).rev().map(|i| (Value::Unsigned(i), Value::Unsigned(i * 2))).collect()
}

fn ops() -> &'static [Op] {
    static O: OnceLock<Vec<Op>> = OnceLock::new();
    O.get_or_init(|| {
        vec![
            ("decode ok", || format!("{:?}", reader::read(&bytes(M::Map(vec![(M::U(1), M::A(vec![t("a"), M::N(5)])), (t("k"), tag(1, M::B(vec![1])))]))))),
            ("decode at the limit", || format!("{:?}", reader::read(&bytes(chain(Step::Val, 127))).map(|v| from_value(&v).unwrap().depth()))),
            ("decode beyond the limit", || format!("{:?}", reader::read(&bytes(chain(Step::Arr, 128))))),
            ("decode truncated", || format!("{:?}", reader::read(&[0x83, 0x01, 0xa1, 0x61, 0x61, 0x82, 0x01]))),
            ("decode misordered", || format!("{:?}", reader::read(&[0x81, 0xa2, 0x02, 0x00, 0x01, 0x00]))),
            ("lenient misordered", || format!("{:?}", reader::read_nested_non_strict(&[0x81, 0xa2, 0x02, 0x00, 0x01, 0xf9, 0, 0, 0xff], Some(3)))),
            ("lenient bad text", || format!("{:?}", reader::read_nested_non_strict(&[0x82, 0x18, 0x01, 0x62, 0xc3, 0x28], None))),
            ("encode ok", || write(Value::Map(vec![(Value::TextString("b".into()), Value::Map(pairs(3))), (Value::Unsigned(1), Value::Array(vec![Value::Negative(-500)]))]))),
            ("encode at the limit", || write(to_value(&chain(Step::Key, 127)))),
            ("encode beyond the limit", || write(to_value(&chain(Step::LastVal, 128)))),
            ("encode equal keys", || {
                let mut p = pairs(3);
                p.push((Value::Unsigned(1), Value::Unsigned(9)));
                write(Value::Array(vec![Value::Unsigned(7), Value::Map(p)]))
            }),
            ("lenient at the limit", || format!("{:?}", reader::read_nested_non_strict(&bytes(chain(Step::ArrFirst, 127)), Some(127)).map(|v| from_value(&v).unwrap().depth()))),
            ("lenient beyond the limit", || format!("{:?}", reader::read_nested_non_strict(&bytes(chain(Step::Tag, 65)), Some(64)))),
            ("lenient truncated", || format!("{:?}", reader::read_nested_non_strict(&cut(30), Some(64)))),
            ("typed decode at the limit", || format!("{:?}", oasis_cbor::from_slice::<Value>(&bytes(chain(Step::ArrLast, 64))).map(|v| from_value(&v).unwrap().depth()))),
            ("typed decode beyond the limit", || format!("{:?}", oasis_cbor::from_slice::<Value>(&bytes(chain(Step::Val, 65))))),
            ("typed decode truncated", || format!("{:?}", oasis_cbor::from_slice::<Value>(&cut(50)))),
            ("typed lenient at the limit", || format!("{:?}", oasis_cbor::from_slice_non_strict::<Value>(&bytes(chain(Step::Key, 64))).map(|v| from_value(&v).unwrap().depth()))),
            ("typed lenient beyond the limit", || format!("{:?}", oasis_cbor::from_slice_non_strict::<Value>(&bytes(chain(Step::ArrFirst, 65))))),
            ("typed lenient truncated", || format!("{:?}", oasis_cbor::from_slice_non_strict::<Vec<Value>>(&cut(40)))),
            ("typed encode at the limit", || hex(&oasis_cbor::to_vec(to_value(&chain(Step::Val, 127))))),
            ("typed encode beyond the limit", || hex(&oasis_cbor::to_vec((1u8, "ab".to_string(), to_value(&chain(Step::Tag, 127)))))),
            ("typed encode fails half-way", || hex(&oasis_cbor::to_vec(vec![(7u8, BTreeMap::from([(Some(()), 2u16)])), (8, BTreeMap::from([(None, 300), (Some(()), 4)]))]))),
            ("serde decode at the limit", || format!("{:?}", oasis_cbor::serde::from_slice::<serde::de::IgnoredAny>(&bytes(chain(Step::LastVal, 64))).map_err(|e| format!("{e:?}")))),
            ("serde decode beyond the limit", || format!("{:?}", oasis_cbor::serde::from_slice::<serde::de::IgnoredAny>(&bytes(chain(Step::Arr, 65))).map_err(|e| format!("{e:?}")))),
            ("serde decode truncated", || format!("{:?}", oasis_cbor::serde::from_slice::<serde::de::IgnoredAny>(&cut(64)).map_err(|e| format!("{e:?}")))),
            ("serde encode at the limit", || ser(&Deep(127))),
            ("serde encode beyond the limit", || ser(&(1u8, "ab", Deep(127)))),
            ("serde encode fails half-way", || ser(&vec![(7u8, BTreeMap::from([(Some(()), 2u16)])), (8, BTreeMap::from([(None, 300), (Some(()), 4)]))])),
            ("typed encode equal keys", || hex(&oasis_cbor::to_vec(BTreeMap::from([(None, 1u8), (Some(()), 2)])))),
            ("typed encode panics inside", || hex(&oasis_cbor::to_vec(vec![vec![Bomb(0)], vec![Bomb(3), Bomb(1)]]))),
            ("typed decode panics inside", || format!("{:?}", oasis_cbor::from_slice::<Vec<Bomb>>(&[0x83, 0x00, 0x01, 0x02]).map(|_| ()))),
            ("typed decode fails inside", || format!("{:?}", oasis_cbor::from_slice::<BTreeMap<u8, Bomb>>(&[0xa2, 0x00, 0x05, 0x01, 0x02]).map(|_| ()))),
            ("typed struct", || {
                let v = Named { a: 1, b: Some("x".into()), c: vec![1], d: 7, e: 3 };
                let b = oasis_cbor::to_vec(Loose { a: 0, n: v, v: Value0(Value::Map(pairs(2))) });
                format!("{} {:?}", hex(&b), oasis_cbor::from_slice::<Loose>(&b))
            }),
            ("typed unknown field", || format!("{:?}", oasis_cbor::from_slice::<Named>(&[0xa2, 0x61, 0x61, 0x01, 0x61, 0x78, 0x02]))),
            ("typed allowed unknown", || format!("{:?}", oasis_cbor::from_slice::<Loose>(&[0xa3, 0x00, 0x00, 0x61, 0x61, 0x05, 0x61, 0x78, 0x02]))),
            ("typed enums", || {
                let e = vec![Outer::Inner(Plain::Three), Outer::Tagged(Tagged::V2 { a: 1 }), Outer::Unit];
                let b = oasis_cbor::to_vec(e);
                format!("{} {:?}", hex(&b), oasis_cbor::from_slice::<Vec<Outer>>(&b))
            }),
            ("typed lenient", || format!("{:?}", oasis_cbor::from_slice_non_strict::<BTreeMap<String, u64>>(&[0xa2, 0x61, 0x62, 0x18, 0x01, 0x61, 0x61, 0x1b, 0, 0, 0, 0, 0, 0, 0, 9]))),
            ("typed hashed", || {
                let m: HashMap<u16, HashMap<String, u8>> = (0..9).map(|i| (i * 77, [("x".to_string(), 1), (i.to_string(), 2)].into_iter().collect())).collect();
                hex(&oasis_cbor::to_vec(m))
            }),
            ("serde ok", || {
                let v = (1u8, "a", vec![Some(-5i64), None], BTreeMap::from([("k", [1u16, 2])]));
                format!("{} {:?}", ser(&v), oasis_cbor::serde::from_slice::<sd::Plain>(&[0xa1, 0x63, 0x54, 0x75, 0x70, 0x82, 0x01, 0x61, 0x71]).map_err(|e| format!("{e:?}")))
            }),
            ("serde encode fails", || ser(&(1u8, BTreeMap::from([("a", 1.5f64)])))),
            ("serde encode fails inside", || ser(&vec![BTreeMap::from([(1u8, Bomb(3))]), BTreeMap::from([(1, Bomb(2))])])),
            ("serde encode panics inside", || ser(&vec![Some(Bomb(3)), Some(Bomb(1))])),
            ("serde decode panics inside", || format!("{:?}", oasis_cbor::serde::from_slice::<Vec<Bomb>>(&[0x82, 0x00, 0x01]).map(|_| ()).map_err(|e| format!("{e:?}")))),
            ("serde decode fails inside", || format!("{:?}", oasis_cbor::serde::from_slice::<BTreeMap<u8, Bomb>>(&[0xa2, 0x00, 0x05, 0x01, 0x02]).map(|_| ()).map_err(|e| format!("{e:?}")))),
            ("serde decode tag", || format!("{:?}", oasis_cbor::serde::from_slice::<Vec<u8>>(&[0x82, 0x00, 0xc1, 0x00]).map_err(|e| format!("{e:?}")))),
        ]
    })
}

fn run(i: usize) -> String {
    step(1);
    match no_panic(ops()[i].1) {
        Ok(s) => s,
        Err(p) => format!("panic {}", p.split(" at /").next().unwrap_or("")),
    }
}

/// The result of each operation in a thread that has run nothing else.
fn baseline() -> &'static [String] {
    static B: OnceLock<Vec<String>> = OnceLock::new();
    B.get_or_init(|| (0..ops().len()).map(|i| std::thread::Builder::new().stack_size(64 << 20).spawn(move || run(i)).unwrap().join().unwrap()).collect())
}

/// Two threads that run operations when told; new ones are started every so often.
struct Pair {
    tx: [mpsc::Sender<u8>; 2],
    rx: mpsc::Receiver<String>,
    uses: usize,
}
fn pair() -> Pair {
    let (otx, rx) = mpsc::channel();
    let tx = [0, 1].map(|_| {
        let (tx, irx) = mpsc::channel::<u8>();
        let otx = otx.clone();
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                for i in irx {
                    let _ = otx.send(run(i as usize));
                }
            })
            .unwrap();
        tx
    });
    Pair { tx, rx, uses: 0 }
}
thread_local! {
    static PAIR: Cell<Option<Pair>> = const { Cell::new(None) };
}

/// arg: "fresh" to start from new threads, "used" to go on with the ones of the history before;
/// bytes: operations, with the top bit for the second thread.
fn history(arg: &str, b: &[u8]) -> Out {
    let base = baseline();
    let mut p = PAIR.with(|p| p.take()).unwrap_or_else(pair);
    if arg == "fresh" {
        p = pair();
    }
    p.uses += 1;
    for (k, o) in b.iter().enumerate() {
        let i = o & 0x7f;
        p.tx[(o >> 7) as usize].send(i).unwrap();
        let r = p.rx.recv().map_err(|_| "thread died".to_string())?;
        if r != base[i as usize] {
            let seq: Vec<_> = b[..=k].iter().map(|o| ops()[(o & 0x7f) as usize].0).collect();
            return Err(format!("{:?} ends in {r} instead of {}", seq, base[i as usize]));
        }
    }
    PAIR.with(|c| c.set(Some(p)));
    Ok(if arg == "fresh" { "as in isolation (new threads)" } else { "as in isolation (threads with a past)" })
}

/// Preemption at allocations: the first operation is stopped at its n-th allocation, the second one
/// runs on another thread (to its end, or to its own m-th allocation), then the first one goes on.
mod preempt {
    use super::*;
    use mccore::alloc::{hook_at, unhook};
    use std::time::Duration;

    pub enum Msg {
        Paused,
        Done(String),
    }
    struct Partner {
        /// Operation and allocation to pause at (0: none), then one message to go on.
        tx: mpsc::Sender<(u8, u16)>,
        rx: mpsc::Receiver<Msg>,
    }
    struct Inner {
        tx: mpsc::Sender<Msg>,
        resume: mpsc::Receiver<(u8, u16)>,
    }
    thread_local! {
        static PARTNER: Cell<Option<Partner>> = const { Cell::new(None) };
        static INNER: Cell<Option<Inner>> = const { Cell::new(None) };
        static JOB: Cell<(u8, u16)> = const { Cell::new((0, 0)) };
        static STATE: Cell<Option<Msg>> = const { Cell::new(None) };
        static STARTED: Cell<bool> = const { Cell::new(false) };
    }

    fn partner() -> Partner {
        let (tx, rx1) = mpsc::channel::<(u8, u16)>();
        let (tx2, rx) = mpsc::channel();
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                INNER.with(|i| i.set(Some(Inner { tx: tx2, resume: rx1 })));
                loop {
                    let inner = INNER.with(|i| i.take()).unwrap();
                    let Ok((op, at)) = inner.resume.recv() else { return };
                    INNER.with(|i| i.set(Some(inner)));
                    if at > 0 {
                        hook_at(at as u64, pause);
                    }
                    let r = run(op as usize);
                    unhook();
                    let inner = INNER.with(|i| i.take()).unwrap();
                    if inner.tx.send(Msg::Done(r)).is_err() {
                        return;
                    }
                    INNER.with(|i| i.set(Some(inner)));
                }
            })
            .unwrap();
        Partner { tx, rx }
    }
    fn pause() {
        let inner = INNER.with(|i| i.take()).unwrap();
        let _ = inner.tx.send(Msg::Paused);
        let _ = inner.resume.recv();
        INNER.with(|i| i.set(Some(inner)));
    }
    /// In the first operation, at its allocation.
    fn switch() {
        let p = PARTNER.with(|p| p.take()).unwrap();
        STARTED.with(|s| s.set(true));
        let _ = p.tx.send(JOB.with(|j| j.get()));
        // Should the other operation wait for something the first one holds, the first one goes on.
        let m = p.rx.recv_timeout(Duration::from_millis(300)).ok();
        STATE.with(|s| s.set(m));
        PARTNER.with(|c| c.set(Some(p)));
    }

    pub fn allocations(op: u8) -> u64 {
        fn never() {}
        hook_at(u64::MAX, never);
        let _ = run(op as usize);
        u64::MAX - unhook()
    }

    pub fn check(_: &str, b: &[u8]) -> Out {
        let (a, op, n, m) = (b[0], b[1], u16::from_le_bytes([b[2], b[3]]), u16::from_le_bytes([b[4], b[5]]));
        let p = PARTNER.with(|p| p.take()).unwrap_or_else(partner);
        PARTNER.with(|c| c.set(Some(p)));
        JOB.with(|j| j.set((op, m)));
        STARTED.with(|s| s.set(false));
        hook_at(n as u64, switch);
        let r = run(a as usize);
        unhook();
        let base = baseline();
        let p = PARTNER.with(|p| p.take()).unwrap();
        if !STARTED.with(|s| s.get()) {
            PARTNER.with(|c| c.set(Some(p)));
            return if r == base[a as usize] { Ok("ended before") } else { Err(format!("{} gives {r}", ops()[a as usize].0)) };
        }
        let mut state = STATE.with(|s| s.take());
        let paused = matches!(state, Some(Msg::Paused));
        let r2 = loop {
            match state {
                Some(Msg::Done(r)) => break r,
                Some(Msg::Paused) => {
                    let _ = p.tx.send((0, 0));
                    state = None;
                }
                None => state = Some(p.rx.recv().map_err(|_| "thread died".to_string())?),
            }
        };
        PARTNER.with(|c| c.set(Some(p)));
        for (o, r) in [(a, &r), (op, &r2)] {
            if *r != base[o as usize] {
                return Err(format!(
                    "{:?} stopped at allocation {n} for {:?} (stopped at {m}): {:?} ends in {r} instead of {}",
                    ops()[a as usize].0, ops()[op as usize].0, ops()[o as usize].0, base[o as usize]
                ));
            }
        }
        Ok(if paused { "as in isolation, two switches" } else { "as in isolation, one switch" })
    }
}

/// Operations started by user code in the middle of another one.
mod inside {
    use super::*;

    thread_local! {
        /// Callbacks to go, operation to run, on another thread or not.
        static PLAN: Cell<(u8, u8, bool)> = const { Cell::new((0, 0, false)) };
        static RESULT: Cell<Option<String>> = const { Cell::new(None) };
    }
    fn callback() {
        let (n, op, other) = PLAN.with(|p| p.get());
        if n == 0 {
            return;
        }
        PLAN.with(|p| p.set((n - 1, op, other)));
        if n == 1 {
            let r = if other {
                std::thread::Builder::new().stack_size(64 << 20).spawn(move || run(op as usize)).unwrap().join().unwrap()
            } else {
                run(op as usize)
            };
            RESULT.with(|c| c.set(Some(r)));
        }
    }

    #[derive(Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct Gate(u8);
    impl Encode for Gate {
        fn is_empty(&self) -> bool {
            callback();
            false
        }
        fn into_cbor_value(self) -> Value {
            callback();
            Value::Unsigned(self.0 as u64)
        }
    }
    impl Decode for Gate {
        fn try_from_cbor_value(v: Value) -> Result<Self, DecodeError> {
            callback();
            u8::try_from_cbor_value(v).map(Gate)
        }
    }
    impl Serialize for Gate {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            callback();
            s.serialize_u8(self.0)
        }
    }
    impl<'de> Deserialize<'de> for Gate {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            callback();
            u8::deserialize(d).map(Gate)
        }
    }
    #[derive(Debug, Encode, Decode)]
    #[cbor(no_default)]
    struct Gates {
        b: Gate,
        #[cbor(optional)]
        a: Gate,
        c: Vec<Gate>,
    }
    #[derive(Debug, Encode, Decode)]
    enum GateE {
        A(Gate),
        B { x: Gate, y: (Gate, u8) },
    }

    fn gs() -> Vec<Gate> {
        vec![Gate(5), Gate(0), Gate(200)]
    }
    pub const OUTER: [fn() -> String; 12] = [
        || hex(&oasis_cbor::to_vec(gs())),
        || hex(&oasis_cbor::to_vec(gs().into_iter().map(|g| (g.0, (g, "x".to_string()))).collect::<HashMap<_, _>>())),
        || hex(&oasis_cbor::to_vec(gs().into_iter().collect::<std::collections::HashSet<_>>())),
        || hex(&oasis_cbor::to_vec(gs().into_iter().map(|g| (g, 1u8)).collect::<BTreeMap<_, _>>())),
        || hex(&oasis_cbor::to_vec(Gates { a: Gate(1), b: Gate(2), c: gs() })),
        || hex(&oasis_cbor::to_vec(vec![GateE::A(Gate(1)), GateE::B { x: Gate(2), y: (Gate(3), 4) }])),
        || format!("{:?}", oasis_cbor::from_slice::<Vec<Gate>>(&[0x83, 5, 0, 0x18, 200])),
        || format!("{:?}", oasis_cbor::from_slice::<BTreeMap<Gate, Gate>>(&[0xa2, 1, 2, 3, 4])),
        || format!("{:?}", oasis_cbor::from_slice::<Gates>(&[0xa3, 0x61, 0x61, 1, 0x61, 0x62, 2, 0x61, 0x63, 0x82, 3, 4])),
        || format!("{:?}", oasis_cbor::from_slice_non_strict::<GateE>(&[0xa1, 0x61, 0x42, 0xa2, 0x61, 0x79, 0x82, 1, 2, 0x61, 0x78, 3])),
        || ser(&(gs(), BTreeMap::from([(1u8, Gate(1)), (2, Gate(3))]))),
        || format!("{:?}", oasis_cbor::serde::from_slice::<(Vec<Gate>, BTreeMap<u8, Gate>)>(&[0x82, 0x82, 5, 6, 0xa2, 1, 2, 3, 4]).map_err(|e| format!("{e:?}"))),
    ];

    pub fn check(_: &str, b: &[u8]) -> Out {
        PLAN.with(|p| p.set((0, 0, false)));
        let want = OUTER[b[0] as usize]();
        RESULT.with(|c| c.take());
        PLAN.with(|p| p.set((b[1], b[2], b[3] != 0)));
        step(2);
        let got = OUTER[b[0] as usize]();
        PLAN.with(|p| p.set((0, 0, false)));
        if got != want {
            return Err(format!("outer call {} around {:?} gives {got} instead of {want}", b[0], ops()[b[2] as usize].0));
        }
        match RESULT.with(|c| c.take()) {
            None => Ok("no such callback"),
            Some(r) if r == baseline()[b[2] as usize] => Ok(if b[3] != 0 { "as in isolation, other thread" } else { "as in isolation, same thread" }),
            Some(r) => Err(format!("{:?} inside outer call {} gives {r} instead of {}", ops()[b[2] as usize].0, b[0], baseline()[b[2] as usize])),
        }
    }
}

/// One operation over and over: counters and stores that fill up, also by one kind of call only.
/// arg: "then" (the first operation so many times, then the second one), "turns" (both in turn) or
/// "many" (only the first one, with the count as a power of two); bytes: operations, count.
fn repeat(arg: &str, b: &[u8]) -> Out {
    let base = baseline();
    let (arg, b) = (arg.to_string(), b.to_vec());
    let n = 1usize << b[2];
    step(n as u64 * if arg == "turns" { 2 } else { 1 });
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let one = |i: u8, k: usize| {
                let r = run(i as usize);
                if r != base[i as usize] {
                    return Err(format!("{:?} (after {k} calls, {arg} with {:?}) gives {r} instead of {}", ops()[i as usize].0, ops()[b[1] as usize].0, base[i as usize]));
                }
                Ok(())
            };
            for k in 0..n {
                one(b[0], k)?;
                if arg == "turns" {
                    one(b[1], k)?;
                }
            }
            if arg == "then" {
                one(b[1], n)?;
            }
            Ok("as in isolation")
        })
        .unwrap()
        .join()
        .map_err(|_| "thread died".to_string())?
}

/// Inputs of the same length, one after the other in the same buffer.
mod reuse {
    use super::*;
    use std::cell::RefCell;

    fn f<T: std::fmt::Debug>(r: T) -> String {
        format!("{r:?}")
    }
    fn enc(b: &[u8]) -> Option<Value> {
        Dec::run(false, Some(100), b).ok().map(|m| to_value(&m))
    }
    struct Given<'a>(&'a M);
    impl Serialize for Given<'_> {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            match self.0 {
                M::U(n) => s.serialize_u64(*n),
                M::N(n) => s.serialize_i64(-1 - (*n as i64)),
                M::B(b) => s.serialize_bytes(b),
                M::T(t) => s.serialize_str(std::str::from_utf8(t.as_ref()).unwrap()),
                M::A(a) => s.collect_seq(a.iter().map(Given)),
                M::Map(m) => s.collect_map(m.iter().map(|(k, v)| (Given(k), Given(v)))),
                M::Tag(_, m) => Given(m).serialize(s),
                M::S(20) => s.serialize_bool(false),
                M::S(21) => s.serialize_bool(true),
                M::S(_) => s.serialize_unit(),
            }
        }
    }
    thread_local! {
        static IN: RefCell<Vec<u8>> = const { RefCell::new(vec![]) };
        static OUT: RefCell<Vec<u8>> = const { RefCell::new(vec![]) };
    }
    pub const KINDS: [(&str, fn(&[u8]) -> String); 15] = [
        ("strict", |b| f(reader::read(b))),
        ("lenient", |b| f(reader::read_nested_non_strict(b, Some(5)))),
        ("typed value", |b| f(oasis_cbor::from_slice::<Value>(b))),
        ("lenient value", |b| f(oasis_cbor::from_slice_non_strict::<Value>(b))),
        ("bytes", |b| f(oasis_cbor::from_slice::<Vec<u8>>(b))),
        ("integers", |b| f(oasis_cbor::from_slice::<Vec<i16>>(b))),
        ("map", |b| f(oasis_cbor::from_slice_non_strict::<BTreeMap<u64, Value>>(b))),
        ("struct", |b| f(oasis_cbor::from_slice::<Named>(b))),
        ("enum", |b| f(oasis_cbor::from_slice::<Outer>(b))),
        ("serde enum", |b| f(oasis_cbor::serde::from_slice::<sd::Plain>(b).map_err(f))),
        ("serde map", |b| f(oasis_cbor::serde::from_slice::<BTreeMap<i32, Vec<u8>>>(b).map_err(f))),
        ("encode", |b| {
            enc(b).map_or("no value".to_string(), |v| {
                OUT.with(|o| {
                    let mut o = o.borrow_mut();
                    o.clear();
                    match writer::write(v, &mut o) {
                        Ok(()) => hex(&o),
                        Err(e) => f(e),
                    }
                })
            })
        }),
        ("typed encode", |b| enc(b).map_or("no value".to_string(), |v| hex(&oasis_cbor::to_vec((v, 7u8))))),
        ("serde encode", |b| Dec::run(false, Some(100), b).map_or("no value".to_string(), |m| ser(&Given(&m)))),
        ("compare", |b| {
            enc(b).map_or("no value".to_string(), |v| {
                let w = Value::Array(vec![Value::Unsigned(1), Value::Map(vec![(Value::Unsigned(0), Value::Unsigned(1))])]);
                f((v.cmp(&w), v == w))
            })
        }),
    ];

    /// Documents by length, valid and faulty, each with some that differ from it in one byte.
    pub fn docs() -> &'static [Vec<Vec<u8>>] {
        static D: OnceLock<Vec<Vec<Vec<u8>>>> = OnceLock::new();
        D.get_or_init(|| {
            let mut by_len: Vec<Vec<Vec<u8>>> = vec![vec![]; 9];
            by_len[0] = (0..=255).map(|b| vec![b]).collect();
            let ms = valgen::trees(4, &[M::U(0), M::U(200), M::N(1), t("a"), t("bc"), t("\0a"), M::B(vec![0x61]), M::S(22)], &[1]);
            for m in &ms {
                let b = m.enc_raw();
                if (2..=9).contains(&b.len()) {
                    by_len[b.len() - 1].push(b);
                }
            }
            for l in &mut by_len[1..] {
                let stride = (l.len() / 24).max(1);
                let base: Vec<_> = l.iter().step_by(stride).take(24).cloned().collect();
                *l = base
                    .into_iter()
                    .flat_map(|d| {
                        let n = d.len();
                        let edit = |i: usize, x: u8| {
                            let mut e = d.clone();
                            e[i] ^= x;
                            e
                        };
                        [d.clone(), edit(n - 1, 1), edit(n - 1, 0x80), edit(n / 2, 1), edit(n / 2, 0x20), edit(0, 1), edit(0, 0x20), edit(1, 2)]
                    })
                    .collect();
                l.sort();
                l.dedup();
            }
            by_len
        })
    }

    fn baseline() -> &'static [Vec<Vec<String>>] {
        static B: OnceLock<Vec<Vec<Vec<String>>>> = OnceLock::new();
        B.get_or_init(|| {
            let ds = docs();
            let one = |g: usize, i: usize| -> Vec<String> {
                KINDS.iter().map(|k| std::thread::spawn(move || call(k.1, &ds[g][i])).join().unwrap()).collect()
            };
            ds.iter().enumerate().map(|(g, l)| (0..l.len()).map(|i| one(g, i)).collect()).collect()
        })
    }
    fn call(k: fn(&[u8]) -> String, d: &[u8]) -> String {
        step(1);
        IN.with(|b| {
            let mut b = b.borrow_mut();
            b.clear();
            b.extend_from_slice(d);
            match no_panic(|| k(&b)) {
                Ok(s) => s,
                Err(p) => format!("panic {}", p.split(" at /").next().unwrap_or("")),
            }
        })
    }
    /// bytes: kind of call, length, the first document and the second one.
    pub fn check(_: &str, b: &[u8]) -> Out {
        let (k, g) = (b[0] as usize, b[1] as usize);
        let at = |i: usize| u16::from_le_bytes([b[i], b[i + 1]]) as usize;
        let base = baseline();
        for i in [at(2), at(4)] {
            let r = call(KINDS[k].1, &docs()[g][i]);
            let want = &base[g][i][k];
            if r != *want {
                return Err(format!("{} of {} next to {} gives {r} instead of {want}", KINDS[k].0, hex(&docs()[g][i]), hex(&docs()[g][at(2)])));
            }
            if k < 2 {
                let want = Dec::run(k == 0, if k == 0 { Some(127) } else { Some(5) }, &docs()[g][i]);
                if want.is_ok() != r.starts_with("Ok(") {
                    return Err(format!("{} of {} gives {r}", KINDS[k].0, hex(&docs()[g][i])));
                }
            }
        }
        Ok("as in isolation")
    }
}

/// The outcome of every operation in isolation is what the specification says.
fn alone(_: &str, b: &[u8]) -> Out {
    let i = b[0] as usize;
    let r = &baseline()[i];
    let name = ops()[i].0;
    let must: &[&str] = match name {
        "decode at the limit" | "lenient at the limit" => &["Ok(127)"],
        "typed decode at the limit" | "typed lenient at the limit" => &["Ok(64)"],
        "typed decode beyond the limit" | "typed lenient beyond the limit" | "typed decode truncated" | "typed lenient truncated" => &["ParsingFailed"],
        "typed encode beyond the limit" => &["panic", "TooMuchNesting"],
        "typed encode fails half-way" => &["panic", "DuplicateMapKey"],
        "serde encode fails half-way" => &["Err(", "DuplicateMapKey"],
        "decode misordered" => &["OutOfOrderKey"],
        "lenient bad text" => &["InvalidUtf8"],
        "encode equal keys" => &["DuplicateMapKey"],
        "typed encode equal keys" => &["panic"],
        "typed unknown field" => &["UnknownField"],
        "typed decode fails inside" => &["UnexpectedIntegerSize"],
        "typed lenient" => &["Ok({\"a\": 9, \"b\": 1})"],
        "serde encode fails" | "serde encode fails inside" | "serde decode fails inside" | "serde decode tag" => &["Err("],
        n if n.ends_with("beyond the limit") => &["TooMuchNesting"],
        n if n.ends_with("truncated") => &["IncompleteCborData"],
        n if n.ends_with("panics inside") => &["bomb"],
        _ => &[],
    };
    if must.iter().any(|m| !r.contains(m)) || (must.is_empty() && (r.contains("Err") || r.contains("panic"))) {
        return Err(format!("{name} gives {r}"));
    }
    Ok(if must.is_empty() { "succeeds" } else { "fails as it should" })
}

pub fn c24() -> Prop {
    Prop { id: "C24", engines: vec![eng("alone", alone), eng("history", history), eng("inside", inside::check), eng("repeat", repeat), eng("reuse", reuse::check), eng("preempt", preempt::check)], explore }
}

fn explore(ctx: &Ctx, p: &Prop) {
    let n = ops().len();
    baseline();
    let e = p.engine("alone");
    ctx.par(n, true, |w, i| w.case(&e, "", &[i as u8]));
    let e = p.engine("history");
    let len = if ctx.thorough { 4 } else { 3 };
    ctx.bound(format!("history: {n} operations (succeeding, failing half-way, at and beyond limits, panicking in user code; generic, typed, derived, serde); every sequence of up to 2 with every placement on two new threads, every sequence of {len} on threads with a past, the placement alternating through all {} assignments", 1 << len));
    ctx.par(n, true, |w, i| {
        for pa in 0..2u8 {
            w.case(&e, "fresh", &[i as u8 | pa << 7]);
            for j in 0..n {
                for pb in 0..2u8 {
                    w.case(&e, "fresh", &[i as u8 | pa << 7, j as u8 | pb << 7]);
                }
            }
        }
    });
    ctx.par(n * n, true, |w, i| {
        let (a, b) = ((i / n) as u8, (i % n) as u8);
        for c in 0..n as u8 {
            for place in 0..8u8 {
                let s = [a | (place & 1) << 7, b | (place >> 1 & 1) << 7, c | (place >> 2) << 7];
                if len == 3 {
                    w.case(&e, "used", &s);
                } else {
                    for d in 0..n as u8 {
                        for pl in 0..2 {
                            w.case(&e, "used", &[s[0], s[1], s[2], d | pl << 7]);
                        }
                    }
                }
            }
        }
    });
    let e = p.engine("repeat");
    let (few, many) = if ctx.thorough { (10, 20) } else { (8, 16) };
    ctx.bound(format!("repeat: each operation 2^{few} times on a new thread and then any other one, any two operations in turn as often, and each operation 2^{many} times"));
    ctx.par(n * n, true, |w, i| {
        for how in ["then", "turns"] {
            w.case(&e, how, &[(i / n) as u8, (i % n) as u8, few]);
        }
    });
    ctx.par(n, true, |w, i| w.case(&e, "many", &[i as u8, i as u8, many]));
    let e = p.engine("reuse");
    let docs = reuse::docs();
    ctx.bound(format!("reuse: all ordered pairs of documents (valid and faulty, {} of lengths 1 to 9) of the same length, one after the other in the same buffer, through each of {} calls", docs.iter().map(|d| d.len()).sum::<usize>(), reuse::KINDS.len()));
    let firsts: Vec<_> = (0..docs.len()).flat_map(|g| (0..docs[g].len()).map(move |i| (g, i))).collect();
    ctx.par(firsts.len(), true, |w, i| {
        let (g, i) = firsts[i];
        for k in 0..reuse::KINDS.len() {
            for j in 0..docs[g].len() {
                let (i, j) = ((i as u16).to_le_bytes(), (j as u16).to_le_bytes());
                w.case(&e, "", &[k as u8, g as u8, i[0], i[1], j[0], j[1]]);
            }
        }
    });
    let e = p.engine("inside");
    ctx.bound(format!("inside: {} outer operations that call user code (typed, derived and serde; encoding and decoding), each of {n} operations run from inside each of their first 8 callbacks, on the same thread and on another", inside::OUTER.len()));
    ctx.par(inside::OUTER.len() * n, true, |w, i| {
        for k in 1..=8 {
            for other in 0..2 {
                w.case(&e, "", &[(i / n) as u8, k, (i % n) as u8, other]);
            }
        }
    });
    let e = p.engine("preempt");
    let counts: Vec<u64> = {
        let c = std::sync::Mutex::new(vec![]);
        std::thread::scope(|s| {
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || *c.lock().unwrap() = (0..n).map(|i| preempt::allocations(i as u8)).collect()).unwrap();
        });
        c.into_inner().unwrap()
    };
    ctx.note("allocations per operation", format!("{counts:?}"));
    let (cap, second) = if ctx.thorough { (2000, 40) } else { (24, 4) };
    ctx.bound(format!("preempt: every pair of operations on two threads, the first one stopped at each of its first and last {cap} allocations, the second one run to its end or stopped at one of {second} of its own allocations until the first has ended (controlled schedules with up to two switches; code between two allocations is not split)"));
    ctx.par(n * n, true, |w, i| {
        let (a, b) = (i / n, i % n);
        let total = counts[a];
        for k in 1..=total {
            if k > cap && k + cap <= total {
                continue;
            }
            let mut at = |m: u64| {
                let (k, m) = ((k as u16).to_le_bytes(), (m as u16).to_le_bytes());
                w.case(&e, "", &[a as u8, b as u8, k[0], k[1], m[0], m[1]]);
            };
            at(0);
            for j in 0..second.min(counts[b]) {
                at(1 + j * counts[b] / second.min(counts[b]));
            }
        }
    });
}
