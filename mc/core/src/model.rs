//! Reference model of CBOR as this library is meant to read and write it. Nothing here uses the
//! library, except the two structural conversions at the bottom.
use oasis_cbor_value::{SimpleValue, Value};

/// A data item. `N(n)` is the negative integer -1-n, `S(n)` a simple value (20..=23).
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum M {
    U(u64),
    N(u64),
    B(Vec<u8>),
    T(String),
    A(Vec<M>),
    Map(Vec<(M, M)>),
    Tag(u64, Box<M>),
    S(u8),
}

pub const FALSE: M = M::S(20);
pub const TRUE: M = M::S(21);
pub const NULL: M = M::S(22);
pub const UNDEF: M = M::S(23);

pub fn t(s: &str) -> M {
    M::T(s.to_string())
}
pub fn tag(t: u64, m: M) -> M {
    M::Tag(t, Box::new(m))
}
pub fn int(i: i128) -> M {
    if i >= 0 {
        M::U(i as u64)
    } else {
        M::N((-1 - i) as u64)
    }
}

/// Shortest-form head.
pub fn head(major: u8, n: u64, out: &mut Vec<u8>) {
    let m = major << 5;
    if n < 24 {
        out.push(m | n as u8)
    } else if n < 0x100 {
        head_w(major, 1, n, out)
    } else if n < 0x1_0000 {
        head_w(major, 2, n, out)
    } else if n < 0x1_0000_0000 {
        head_w(major, 4, n, out)
    } else {
        head_w(major, 8, n, out)
    }
}

/// Head with an explicit argument width of 1, 2, 4 or 8 bytes (0: inline).
pub fn head_w(major: u8, width: usize, n: u64, out: &mut Vec<u8>) {
    let m = major << 5;
    match width {
        0 => out.push(m | n as u8),
        1 => out.push(m | 24),
        2 => out.push(m | 25),
        4 => out.push(m | 26),
        _ => out.push(m | 27),
    }
    out.extend_from_slice(&n.to_be_bytes()[8 - width..]);
}

impl M {
    /// Encoding with map entries in the order given, duplicates included.
    pub fn enc_raw(&self) -> Vec<u8> {
        let mut v = vec![];
        self.enc_raw_to(&mut v);
        v
    }

    pub fn enc_raw_to(&self, out: &mut Vec<u8>) {
        match self {
            M::U(n) => head(0, *n, out),
            M::N(n) => head(1, *n, out),
            M::B(b) => {
                head(2, b.len() as u64, out);
                out.extend_from_slice(b)
            }
            M::T(s) => {
                head(3, s.len() as u64, out);
                out.extend_from_slice(s.as_bytes())
            }
            M::A(a) => {
                head(4, a.len() as u64, out);
                for e in a {
                    e.enc_raw_to(out)
                }
            }
            M::Map(m) => {
                head(5, m.len() as u64, out);
                for (k, v) in m {
                    k.enc_raw_to(out);
                    v.enc_raw_to(out)
                }
            }
            M::Tag(t, m) => {
                head(6, *t, out);
                m.enc_raw_to(out)
            }
            M::S(n) => head(7, *n as u64, out),
        }
    }

    /// Canonical encoding; `None` if some map has two keys with the same encoding.
    pub fn enc(&self) -> Option<Vec<u8>> {
        let mut out = vec![];
        match self {
            M::A(a) => {
                head(4, a.len() as u64, &mut out);
                for e in a {
                    out.extend(e.enc()?)
                }
            }
            M::Map(m) => {
                head(5, m.len() as u64, &mut out);
                let mut entries = vec![];
                for (k, v) in m {
                    entries.push((k.enc()?, v.enc()?));
                }
                entries.sort();
                for w in entries.windows(2) {
                    if w[0].0 == w[1].0 {
                        return None;
                    }
                }
                for (k, v) in entries {
                    out.extend(k);
                    out.extend(v);
                }
            }
            M::Tag(t, m) => {
                head(6, *t, &mut out);
                out.extend(m.enc()?)
            }
            _ => self.enc_raw_to(&mut out),
        }
        Some(out)
    }

    /// The same data item with the entries of every map in canonical order.
    pub fn canon(&self) -> M {
        match self {
            M::A(a) => M::A(a.iter().map(M::canon).collect()),
            M::Map(m) => {
                let mut e: Vec<_> = m
                    .iter()
                    .map(|(k, v)| {
                        let k = k.canon();
                        (k.enc_raw(), k, v.canon())
                    })
                    .collect();
                // The order of entries with equal keys means nothing.
                e.sort_by(|a, b| a.0.cmp(&b.0).then_with(|| a.2.enc_raw().cmp(&b.2.enc_raw())));
                M::Map(e.into_iter().map(|(_, k, v)| (k, v)).collect())
            }
            M::Tag(t, m) => M::Tag(*t, Box::new(m.canon())),
            _ => self.clone(),
        }
    }

    /// Nesting depth: 0 for scalars and empty containers.
    pub fn depth(&self) -> usize {
        match self {
            M::A(a) => a.iter().map(|e| e.depth() + 1).max().unwrap_or(0),
            M::Map(m) => m
                .iter()
                .map(|(k, v)| k.depth().max(v.depth()) + 1)
                .max()
                .unwrap_or(0),
            M::Tag(_, m) => m.depth() + 1,
            _ => 0,
        }
    }
}

/// Sets of error reasons.
pub type Errs = u16;
pub const E_INCOMPLETE: Errs = 1;
pub const E_UNKNOWN_INFO: Errs = 2;
pub const E_NESTING: Errs = 4;
pub const E_UTF8: Errs = 8;
pub const E_EXTRANEOUS: Errs = 16;
pub const E_ORDER: Errs = 32;
pub const E_NON_MINIMAL: Errs = 64;
pub const E_SIMPLE: Errs = 128;
pub const E_FLOAT: Errs = 256;
pub const E_MAJOR: Errs = 512;

pub fn errs_names(e: Errs) -> String {
    const N: [&str; 10] = [
        "IncompleteCborData",
        "UnknownAdditionalInfo",
        "TooMuchNesting",
        "InvalidUtf8",
        "ExtraneousData",
        "OutOfOrderKey",
        "NonMinimalCborEncoding",
        "UnsupportedSimpleValue",
        "UnsupportedFloatingPointValue",
        "UnsupportedMajorType",
    ];
    let v: Vec<_> = (0..10).filter(|i| e >> i & 1 == 1).map(|i| N[i]).collect();
    v.join("|")
}

/// UTF-8 well-formedness (Unicode table 3-7), one byte at a time.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Utf8 {
    Start,
    /// Continuation bytes still needed, range of the next one.
    Cont(u8, u8, u8),
    Bad,
}

impl Utf8 {
    pub fn step(self, b: u8) -> Utf8 {
        match self {
            Utf8::Start => match b {
                0x00..=0x7f => Utf8::Start,
                0xc2..=0xdf => Utf8::Cont(1, 0x80, 0xbf),
                0xe0 => Utf8::Cont(2, 0xa0, 0xbf),
                0xe1..=0xec | 0xee..=0xef => Utf8::Cont(2, 0x80, 0xbf),
                0xed => Utf8::Cont(2, 0x80, 0x9f),
                0xf0 => Utf8::Cont(3, 0x90, 0xbf),
                0xf1..=0xf3 => Utf8::Cont(3, 0x80, 0xbf),
                0xf4 => Utf8::Cont(3, 0x80, 0x8f),
                _ => Utf8::Bad,
            },
            Utf8::Cont(n, lo, hi) => {
                if b < lo || b > hi {
                    Utf8::Bad
                } else if n == 1 {
                    Utf8::Start
                } else {
                    Utf8::Cont(n - 1, 0x80, 0xbf)
                }
            }
            Utf8::Bad => Utf8::Bad,
        }
    }
}

#[derive(Clone, Debug)]
enum Frame {
    Arr(Vec<M>, u64),
    Map(Vec<(M, M)>, Option<M>, u64, Vec<u8>),
    Tag(u64),
}

#[derive(Clone, Debug)]
enum Cur {
    Head,
    Arg(u8, u8, usize, u64),
    Str(u8, u64, Vec<u8>, Utf8),
}

#[derive(Clone, Debug)]
pub enum Out {
    Pending,
    Done(M),
    Reject(Errs),
}

/// The decoder as a state machine over input bytes.
#[derive(Clone, Debug)]
pub struct Dec {
    strict: bool,
    limit: Option<i64>,
    stack: Vec<Frame>,
    cur: Cur,
    pub out: Out,
    /// Bytes consumed by the first complete item (meaningful once done).
    pub consumed: usize,
}

impl Dec {
    pub fn new(strict: bool, limit: Option<i64>) -> Dec {
        Dec {
            strict,
            limit,
            stack: vec![],
            cur: Cur::Head,
            out: Out::Pending,
            consumed: 0,
        }
    }

    pub fn run(strict: bool, limit: Option<i64>, bytes: &[u8]) -> Result<M, Errs> {
        let mut d = Dec::new(strict, limit);
        for b in bytes {
            d.feed(*b);
            match d.out {
                Out::Reject(_) => break,
                Out::Done(_) if !strict => break,
                _ => {}
            }
        }
        d.finish()
    }

    fn too_deep(&self) -> bool {
        self.limit.map_or(false, |l| self.stack.len() as i64 > l)
    }

    /// The result if the input ends here.
    pub fn finish(self) -> Result<M, Errs> {
        match self.out {
            Out::Done(m) => Ok(m),
            Out::Reject(e) => Err(e),
            Out::Pending => Err(self.pending_errs()),
        }
    }

    pub fn pending_errs(&self) -> Errs {
        let mut e = E_INCOMPLETE;
        match &self.cur {
            Cur::Head if self.too_deep() => e |= E_NESTING,
            Cur::Str(3, _, _, Utf8::Bad) => e |= E_UTF8,
            _ => {}
        }
        e
    }

    fn reject(&mut self, e: Errs) {
        self.out = Out::Reject(e);
    }

    pub fn feed(&mut self, b: u8) {
        crate::explore::step(1);
        match self.out {
            Out::Done(_) => {
                if self.strict {
                    self.reject(E_EXTRANEOUS)
                }
                return;
            }
            Out::Reject(_) => return,
            Out::Pending => {}
        }
        self.consumed += 1;
        match &mut self.cur {
            Cur::Head => {
                let (major, ai) = (b >> 5, b & 31);
                if self.too_deep() {
                    // The limit is exceeded before the head is read; a fault of that head itself
                    // may be reported instead.
                    let own = match ai {
                        0..=23 => 0,
                        24..=27 => E_INCOMPLETE | E_NON_MINIMAL,
                        _ => E_UNKNOWN_INFO,
                    };
                    return self.reject(E_NESTING | own);
                }
                match ai {
                    0..=23 => self.head_done(major, ai, ai as u64),
                    24 => self.cur = Cur::Arg(major, ai, 1, 0),
                    25 => self.cur = Cur::Arg(major, ai, 2, 0),
                    26 => self.cur = Cur::Arg(major, ai, 4, 0),
                    27 => self.cur = Cur::Arg(major, ai, 8, 0),
                    _ => self.reject(E_UNKNOWN_INFO),
                }
            }
            Cur::Arg(major, ai, need, val) => {
                *val = *val << 8 | b as u64;
                *need -= 1;
                if *need == 0 {
                    let (major, ai, val) = (*major, *ai, *val);
                    self.head_done(major, ai, val)
                }
            }
            Cur::Str(major, need, buf, utf8) => {
                buf.push(b);
                *utf8 = utf8.step(b);
                if buf.len() as u64 == *need {
                    let buf = std::mem::take(buf);
                    let (major, utf8) = (*major, *utf8);
                    self.str_done(major, buf, utf8)
                }
            }
        }
    }

    fn head_done(&mut self, major: u8, ai: u8, val: u64) {
        if self.strict {
            let minimal = match ai {
                24 => val >= 24,
                25 => val > 0xff,
                26 => val > 0xffff,
                27 => val > 0xffff_ffff,
                _ => true,
            };
            if !minimal {
                let also = match (major, ai) {
                    (7, 24) => E_SIMPLE,
                    (7, _) => E_FLOAT,
                    _ => 0,
                };
                return self.reject(E_NON_MINIMAL | also);
            }
        }
        self.cur = Cur::Head;
        match major {
            0 => self.complete(M::U(val)),
            1 => self.complete(M::N(val)),
            2 | 3 if val == 0 => self.str_done(major, vec![], Utf8::Start),
            2 | 3 => self.cur = Cur::Str(major, val, vec![], Utf8::Start),
            4 if val == 0 => self.complete(M::A(vec![])),
            4 => self.stack.push(Frame::Arr(vec![], val)),
            5 if val == 0 => self.complete(M::Map(vec![])),
            5 => self.stack.push(Frame::Map(vec![], None, val, vec![])),
            6 => self.stack.push(Frame::Tag(val)),
            _ => {
                if ai > 24 {
                    if self.strict {
                        self.reject(E_FLOAT)
                    } else {
                        self.complete(UNDEF)
                    }
                } else if (20..=23).contains(&val) {
                    self.complete(M::S(val as u8))
                } else if self.strict {
                    self.reject(E_SIMPLE)
                } else {
                    self.complete(UNDEF)
                }
            }
        }
    }

    fn str_done(&mut self, major: u8, buf: Vec<u8>, utf8: Utf8) {
        self.cur = Cur::Head;
        if major == 2 {
            self.complete(M::B(buf))
        } else if utf8 == Utf8::Start {
            self.complete(M::T(String::from_utf8(buf).expect("model UTF-8")))
        } else {
            self.reject(E_UTF8)
        }
    }

    fn complete(&mut self, mut m: M) {
        loop {
            match self.stack.pop() {
                None => {
                    self.out = Out::Done(m);
                    return;
                }
                Some(Frame::Arr(mut items, n)) => {
                    items.push(m);
                    if items.len() as u64 == n {
                        m = M::A(items);
                    } else {
                        self.stack.push(Frame::Arr(items, n));
                        return;
                    }
                }
                Some(Frame::Map(entries, None, n, last)) => {
                    let mut kb = vec![];
                    if self.strict {
                        kb = m.enc_raw();
                        if !entries.is_empty() && kb <= last {
                            return self.reject(E_ORDER);
                        }
                    }
                    self.stack.push(Frame::Map(entries, Some(m), n, kb));
                    return;
                }
                Some(Frame::Map(mut entries, Some(k), n, last)) => {
                    entries.push((k, m));
                    if entries.len() as u64 == n {
                        m = M::Map(entries);
                    } else {
                        self.stack.push(Frame::Map(entries, None, n, last));
                        return;
                    }
                }
                Some(Frame::Tag(t)) => m = M::Tag(t, Box::new(m)),
            }
        }
    }

    /// Number of containers open.
    pub fn open(&self) -> usize {
        self.stack.len()
    }
    pub fn at_head(&self) -> bool {
        matches!(self.cur, Cur::Head)
    }
    pub fn in_string(&self) -> bool {
        matches!(self.cur, Cur::Str(..))
    }
}

/// Structural conversion to the library's value type.
pub fn to_value(m: &M) -> Value {
    match m {
        M::U(n) => Value::Unsigned(*n),
        M::N(n) => Value::Negative(-1 - *n as i128),
        M::B(b) => Value::ByteString(b.clone()),
        M::T(s) => Value::TextString(s.clone()),
        M::A(a) => Value::Array(a.iter().map(to_value).collect()),
        M::Map(m) => Value::Map(m.iter().map(|(k, v)| (to_value(k), to_value(v))).collect()),
        M::Tag(t, m) => Value::Tag(*t, Box::new(to_value(m))),
        M::S(20) => Value::Simple(SimpleValue::FalseValue),
        M::S(21) => Value::Simple(SimpleValue::TrueValue),
        M::S(22) => Value::Simple(SimpleValue::NullValue),
        M::S(23) => Value::Simple(SimpleValue::Undefined),
        M::S(_) => panic!("not a representable simple value"),
    }
}

/// Structural conversion from the library's value type. A negative integer outside the CBOR range
/// (which the library must never produce) is an error.
pub fn from_value(v: &Value) -> Result<M, String> {
    Ok(match v {
        Value::Unsigned(n) => M::U(*n),
        Value::Negative(n) => {
            if *n >= 0 || *n < -(1i128 << 64) {
                return Err(format!("Value::Negative({n}) is not a negative CBOR integer"));
            }
            M::N((-1 - *n) as u64)
        }
        Value::ByteString(b) => M::B(b.clone()),
        Value::TextString(s) => M::T(s.clone()),
        Value::Array(a) => M::A(a.iter().map(from_value).collect::<Result<_, _>>()?),
        Value::Map(m) => M::Map(
            m.iter()
                .map(|(k, v)| Ok((from_value(k)?, from_value(v)?)))
                .collect::<Result<_, String>>()?,
        ),
        Value::Tag(t, m) => M::Tag(*t, Box::new(from_value(m)?)),
        Value::Simple(SimpleValue::FalseValue) => FALSE,
        Value::Simple(SimpleValue::TrueValue) => TRUE,
        Value::Simple(SimpleValue::NullValue) => NULL,
        Value::Simple(SimpleValue::Undefined) => UNDEF,
    })
}

/// Diagnostic notation, shortened.
pub fn show(m: &M) -> String {
    let s = diag(m);
    if s.len() > 300 {
        format!("{}… ({} chars)", s.chars().take(280).collect::<String>(), s.len())
    } else {
        s
    }
}

fn diag(m: &M) -> String {
    match m {
        M::U(n) => n.to_string(),
        M::N(n) => (-1 - *n as i128).to_string(),
        M::B(b) => format!("h'{}'", hex(b)),
        M::T(s) => format!("{s:?}"),
        M::A(a) => format!("[{}]", a.iter().map(diag).collect::<Vec<_>>().join(", ")),
        M::Map(m) => format!(
            "{{{}}}",
            m.iter().map(|(k, v)| format!("{}: {}", diag(k), diag(v))).collect::<Vec<_>>().join(", ")
        ),
        M::Tag(t, m) => format!("{t}({})", diag(m)),
        M::S(20) => "false".into(),
        M::S(21) => "true".into(),
        M::S(22) => "null".into(),
        M::S(23) => "undefined".into(),
        M::S(n) => format!("simple({n})"),
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}
pub fn show_hex(b: &[u8]) -> String {
    if b.len() > 80 {
        format!("{}…({} bytes)", hex(&b[..72]), b.len())
    } else {
        hex(b)
    }
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 || !s.is_ascii() {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
