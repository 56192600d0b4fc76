//! Exploration driver: enumerates cases in parallel, runs each against the implementation, isolates
//! crashes and hangs in a child process, and writes evidence, replays and verdicts.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write as _;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::model::{hex, unhex};

/// Runs one case; `Ok` gives a class of outcome (for the report), `Err` says what is broken.
pub type Check = fn(&str, &[u8]) -> Result<&'static str, String>;

#[derive(Clone, Copy)]
pub struct Engine {
    pub name: &'static str,
    pub check: Check,
}

pub const SLOTS: usize = 16;
const SLOT_SIZE: usize = 4 << 20;

thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static GUARDED: Cell<u32> = const { Cell::new(0) };
}
/// Counts steps of the reference model.
#[inline]
pub fn step(n: u64) {
    STEPS.with(|s| s.set(s.get() + n))
}

/// Runs `f`, turning a panic into its message.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(g.get() - 1));
    match r {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
    }
}

#[derive(Clone, Debug)]
struct Viol {
    engine: String,
    arg: String,
    bytes: Vec<u8>,
    what: String,
    reproduced: bool,
}

#[derive(Default)]
struct Stats {
    cases: u64,
    steps: u64,
    distinct: u64,
    outcomes: BTreeMap<&'static str, u64>,
    hashes: Vec<u64>,
    samples: Vec<String>,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub threads: usize,
    start: Instant,
    deadline: Option<Instant>,
    map: *mut u8,
    stats: Mutex<BTreeMap<&'static str, Stats>>,
    viols: Mutex<Vec<Viol>>,
    nviol: AtomicUsize,
    known: HashSet<String>,
    known_hit: Mutex<BTreeMap<String, String>>,
    stop: AtomicBool,
    capped: Mutex<Vec<String>>,
    notes: Mutex<Vec<(String, String)>>,
    bounds: Mutex<Vec<String>>,
}
unsafe impl Sync for Ctx {}

pub struct Worker<'a> {
    pub ctx: &'a Ctx,
    slot: usize,
    stats: BTreeMap<&'static str, Stats>,
    /// Whether cases may repeat and distinct ones have to be counted by hash.
    pub dedup: bool,
}

fn fnv(parts: &[&[u8]]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for p in parts {
        for b in *p {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        h = (h ^ 0x1ff).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

pub fn case_key(engine: &str, arg: &str, bytes: &[u8]) -> String {
    format!("{engine}|{arg}|{}", hex(bytes))
}

impl<'a> Worker<'a> {
    fn mark(&self, engine: &str, arg: &str, bytes: &[u8], on: bool) {
        unsafe {
            let p = self.ctx.map.add(self.slot * SLOT_SIZE);
            let seq = p as *mut u64;
            if on {
                let mut w = std::slice::from_raw_parts_mut(p.add(16), SLOT_SIZE - 16);
                let n = bytes.len().min(SLOT_SIZE - 4096);
                for part in [engine.as_bytes(), arg.as_bytes(), &bytes[..n]] {
                    let _ = w.write_all(&(part.len() as u32).to_le_bytes());
                    let _ = w.write_all(part);
                }
            }
            let active = p.add(8) as *mut u64;
            active.write_volatile(on as u64);
            seq.write_volatile(seq.read_volatile() + 1);
        }
    }

    /// Checks one case.
    pub fn case(&mut self, e: &Engine, arg: &str, bytes: &[u8]) {
        if self.ctx.stop.load(SeqCst) {
            return;
        }
        self.mark(e.name, arg, bytes, true);
        STEPS.with(|s| s.set(0));
        let r = run_check(e, arg, bytes);
        self.mark(e.name, arg, bytes, false);
        let s = self.stats.entry(e.name).or_default();
        s.cases += 1;
        s.steps += STEPS.with(|s| s.get());
        if self.dedup {
            s.hashes.push(fnv(&[arg.as_bytes(), bytes]));
        } else {
            s.distinct += 1;
        }
        match r {
            Ok(o) => {
                let n = s.outcomes.entry(o).or_insert(0);
                *n += 1;
                if *n <= 1 {
                    let b = if bytes.len() > 40 {
                        format!("{}…({} bytes)", hex(&bytes[..40]), bytes.len())
                    } else {
                        hex(bytes)
                    };
                    s.samples.push(format!("{} {} {} -> {}", e.name, arg, b, o));
                }
            }
            Err(what) => {
                *s.outcomes.entry("VIOLATION").or_insert(0) += 1;
                self.violation(e, arg, bytes, what)
            }
        }
    }

    fn violation(&mut self, e: &Engine, arg: &str, bytes: &[u8], what: String) {
        let key = case_key(e.name, arg, bytes);
        if self.ctx.known.contains(&key) {
            self.ctx.known_hit.lock().unwrap().insert(key, what);
            return;
        }
        let n = self.ctx.nviol.fetch_add(1, SeqCst);
        if n < 300 {
            self.mark(e.name, arg, bytes, true);
            let reproduced = (0..2).all(|_| run_check(e, arg, bytes).is_err());
            self.mark(e.name, arg, bytes, false);
            self.ctx.viols.lock().unwrap().push(Viol {
                engine: e.name.into(),
                arg: arg.into(),
                bytes: bytes.to_vec(),
                what,
                reproduced,
            });
        } else {
            self.ctx.stop.store(true, SeqCst);
        }
    }

    /// True once the exploration should wind down.
    pub fn stopped(&self) -> bool {
        self.ctx.stop.load(SeqCst)
    }
    pub fn out_of_time(&self) -> bool {
        self.ctx.deadline.map_or(false, |d| Instant::now() > d)
    }
}

fn run_check(e: &Engine, arg: &str, bytes: &[u8]) -> Result<&'static str, String> {
    match no_panic(|| (e.check)(arg, bytes)) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {p}")),
    }
}

impl Ctx {
    /// Distributes items 0..n over the workers.
    pub fn par<F: Fn(&mut Worker, usize) + Sync>(&self, n: usize, dedup: bool, f: F) {
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for slot in 0..self.threads.min(n.max(1)) {
                let (next, f) = (&next, &f);
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, move || {
                        let mut w = Worker { ctx: self, slot, stats: Default::default(), dedup };
                        loop {
                            let i = next.fetch_add(1, SeqCst);
                            if i >= n || w.stopped() {
                                break;
                            }
                            f(&mut w, i);
                        }
                        self.merge(w.stats);
                    })
                    .unwrap();
            }
        });
    }

    fn merge(&self, stats: BTreeMap<&'static str, Stats>) {
        let mut all = self.stats.lock().unwrap();
        for (k, s) in stats {
            let a = all.entry(k).or_default();
            a.cases += s.cases;
            a.steps += s.steps;
            a.distinct += s.distinct;
            a.hashes.extend(s.hashes);
            for (o, n) in s.outcomes {
                *a.outcomes.entry(o).or_insert(0) += n;
            }
            if a.samples.len() < 200 {
                a.samples.extend(s.samples);
            }
        }
    }

    /// Records that a cap cut an engine short.
    pub fn cap(&self, what: &str) {
        self.capped.lock().unwrap().push(what.to_string())
    }
    pub fn note(&self, k: &str, v: impl ToString) {
        self.notes.lock().unwrap().push((k.to_string(), v.to_string()))
    }
    pub fn bound(&self, s: impl ToString) {
        self.bounds.lock().unwrap().push(s.to_string())
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
}

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

pub struct Prop {
    pub id: &'static str,
    pub engines: Vec<Engine>,
    pub explore: fn(&Ctx, &Prop),
}

impl Prop {
    pub fn engine(&self, name: &str) -> Engine {
        *self.engines.iter().find(|e| e.name == name).unwrap_or_else(|| panic!("no engine {name}"))
    }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()).into()
}

fn run_dir() -> PathBuf {
    let d = std::env::var("VERIF_RUN_DIR").map(PathBuf::from).unwrap_or_else(|_| verif_dir().join("target/run"));
    fs::create_dir_all(&d).unwrap();
    d
}

fn known_lines(prop: &str) -> Vec<(String, String)> {
    // known: property=C21 key=<engine>|<arg>|<hex> <description>
    let text = fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let rest = l.strip_prefix("known: property=")?;
            let (p, rest) = rest.split_once(" key=")?;
            if p != prop {
                return None;
            }
            let (k, d) = rest.split_once(' ')?;
            Some((k.to_string(), d.to_string()))
        })
        .collect()
}

fn write_replay(prop: &str, v: &Viol) -> PathBuf {
    let dir = verif_dir().join("replays");
    fs::create_dir_all(&dir).unwrap();
    let h = fnv(&[v.engine.as_bytes(), v.arg.as_bytes(), &v.bytes]);
    let path = dir.join(format!("{prop}-{h:016x}.replay"));
    let text = format!(
        "property: {prop}\nengine: {}\narg: {}\nbytes: {}\nwhat: {}\nreproduced: {}\n# replay with: /verif/check.sh {prop} --replay {}\n",
        v.engine,
        v.arg,
        hex(&v.bytes),
        v.what.replace('\n', " "),
        v.reproduced,
        path.display()
    );
    fs::write(&path, text).unwrap();
    path
}

struct EvidenceIn<'a> {
    prop: &'a str,
    thorough: bool,
    seed: u64,
    wall: f64,
    violations: usize,
    body: String,
}

fn write_evidence(e: EvidenceIn) {
    let dir = verif_dir().join("evidence");
    fs::create_dir_all(&dir).unwrap();
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {},\n \"assumptions\": [\"64-bit target; library built with debug assertions and overflow checks\", \"behaviour outside the stated bounds is not explored\"],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        jstr(e.prop),
        jstr(if e.thorough { "thorough" } else { "quick" }),
        e.seed,
        e.body,
        e.wall,
        e.violations
    );
    fs::write(dir.join(format!("{}.json", e.prop)), text).unwrap();
}

fn coverage(ctx: &Ctx) -> String {
    let mut stats = ctx.stats.lock().unwrap();
    let (mut states, mut trans, mut traces) = (0u64, 0u64, 0u64);
    let mut engines = vec![];
    let mut samples = vec![];
    let mut per: Vec<Vec<String>> = vec![];
    for (name, s) in stats.iter_mut() {
        s.hashes.sort_unstable();
        s.hashes.dedup();
        let distinct = s.distinct + s.hashes.len() as u64;
        states += distinct;
        trans += s.steps;
        traces += s.cases;
        let mut o: Vec<_> = s.outcomes.iter().collect();
        o.sort_by_key(|x| std::cmp::Reverse(*x.1));
        engines.push(format!(
            "{}: {{\"executions\": {}, \"distinct_cases\": {}, \"model_steps\": {}, \"outcomes\": {{{}}}}}",
            jstr(name),
            s.cases,
            distinct,
            s.steps,
            o.iter().map(|(k, n)| format!("{}: {}", jstr(k), n)).collect::<Vec<_>>().join(", ")
        ));
        s.samples.sort_by_key(|x| (x.len(), x.clone()));
        per.push(s.samples.clone());
    }
    for i in 0..6 {
        for p in &per {
            if let Some(x) = p.get(i) {
                if samples.len() < 40 {
                    samples.push(jstr(x));
                }
            }
        }
    }
    let capped = ctx.capped.lock().unwrap();
    let known = ctx.known_hit.lock().unwrap();
    format!(
        "{{\n  \"states\": {states},\n  \"transitions\": {trans},\n  \"traces_validated_against_impl\": {traces},\n  \"exhaustive\": {},\n  \"rule\": {},\n  \"bounds\": [{}],\n  \"caps_hit\": [{}],\n  \"known_findings_hit\": {},\n  \"notes\": {{{}}},\n  \"engines\": {{\n   {}\n  }},\n  \"samples\": [\n   {}\n  ]\n }}",
        capped.is_empty() && !ctx.stop.load(SeqCst),
        jstr("states: distinct cases (input or model state) enumerated, summed over engines; transitions: steps taken by the reference model; traces_validated_against_impl: executions of the library compared with the model"),
        ctx.bounds.lock().unwrap().iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "),
        capped.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "),
        known.len(),
        ctx.notes.lock().unwrap().iter().map(|(k, v)| format!("{}: {}", jstr(k), jstr(v))).collect::<Vec<_>>().join(", "),
        engines.join(",\n   "),
        samples.join(",\n   ")
    )
}

fn panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if GUARDED.try_with(|g| g.get()).unwrap_or(1) == 0 {
            eprintln!("panic: {m}{l}");
        }
        let _ = PANIC.try_with(|p| *p.borrow_mut() = m + &l);
    }));
}

fn child(prop: &Prop, crumbs: &Path) -> i32 {
    panic_hook();
    let f = fs::OpenOptions::new().read(true).write(true).open(crumbs).unwrap();
    let map = unsafe {
        use std::os::fd::AsRawFd;
        mmap(std::ptr::null_mut(), SLOTS * SLOT_SIZE, 3, 1, f.as_raw_fd(), 0)
    };
    assert!(map as isize != -1, "mmap");
    let thorough = tier_thorough();
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(SLOTS);
    let known = known_lines(prop.id);
    let start = Instant::now();
    let cap: u64 = std::env::var("VERIF_TIME_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(
        if thorough { 7200 } else { 420 },
    );
    let ctx = Ctx {
        prop: prop.id.into(),
        thorough,
        seed: seed(),
        threads,
        start,
        deadline: Some(start + Duration::from_secs(cap)),
        map,
        stats: Default::default(),
        viols: Default::default(),
        nviol: AtomicUsize::new(0),
        known: known.iter().map(|k| k.0.clone()).collect(),
        known_hit: Default::default(),
        stop: AtomicBool::new(false),
        capped: Default::default(),
        notes: Default::default(),
        bounds: Default::default(),
    };
    (prop.explore)(&ctx, prop);
    let mut viols = ctx.viols.lock().unwrap().clone();
    let body = coverage(&ctx);
    write_evidence(EvidenceIn {
        prop: prop.id,
        thorough,
        seed: ctx.seed,
        wall: ctx.elapsed(),
        violations: ctx.nviol.load(SeqCst),
        body,
    });
    let hit = ctx.known_hit.lock().unwrap();
    for (k, d) in &known {
        if hit.contains_key(k) {
            println!("KNOWN-FINDING: property={} {} [{}]", prop.id, d, k);
        }
    }
    let cases: u64 = ctx.stats.lock().unwrap().values().map(|s| s.cases).sum();
    println!("{}: {} executions in {:.1}s", prop.id, cases, ctx.elapsed());
    if cases == 0 {
        eprintln!("nothing was explored");
        return 2;
    }
    if viols.is_empty() {
        return 0;
    }
    if std::env::var_os("VERIF_LIST").is_some() {
        for v in &viols {
            println!("  {} {} {}: {}", v.engine, v.arg, crate::model::show_hex(&v.bytes), v.what);
        }
    }
    // The simplest violation of each engine, at most five in all.
    viols.sort_by_key(|v| (!v.reproduced, v.bytes.len(), v.arg.len(), v.arg.clone(), v.bytes.clone()));
    let mut seen = HashSet::new();
    let mut n = 0;
    for v in &viols {
        if seen.insert(v.engine.clone()) && n < 5 {
            n += 1;
            let path = write_replay(prop.id, v);
            println!("  {} {} {}: {}", v.engine, v.arg, crate::model::show_hex(&v.bytes), v.what);
            println!("VIOLATION property={} replay={}", prop.id, path.display());
        }
    }
    1
}

fn tier_thorough() -> bool {
    std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough")
}
fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn read_slot(data: &[u8]) -> Option<(u64, bool, String, String, Vec<u8>)> {
    let seq = u64::from_le_bytes(data[0..8].try_into().unwrap());
    let active = data[8] != 0;
    let mut p = &data[16..];
    let mut parts = vec![];
    for _ in 0..3 {
        let n = u32::from_le_bytes(p.get(0..4)?.try_into().unwrap()) as usize;
        parts.push(p.get(4..4 + n)?.to_vec());
        p = &p[4 + n..];
    }
    let bytes = parts.pop()?;
    let arg = String::from_utf8_lossy(&parts.pop()?).into_owned();
    let engine = String::from_utf8_lossy(&parts.pop()?).into_owned();
    Some((seq, active, engine, arg, bytes))
}

fn wait(c: &mut std::process::Child, timeout: Duration) -> Option<std::process::ExitStatus> {
    let end = Instant::now() + timeout;
    loop {
        if let Some(s) = c.try_wait().unwrap() {
            return Some(s);
        }
        if Instant::now() > end {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

/// Entry point of a checker binary: `bin <property> [--replay FILE]`.
pub fn main(props: &[Prop]) {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let prop = match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    };
    let mode = args.get(2).map(|s| s.as_str());
    let code = match mode {
        Some("--child") => child(prop, Path::new(&args[3])),
        Some("--replay") => {
            panic_hook();
            replay(prop, Path::new(&args[3]))
        }
        _ => parent(prop),
    };
    std::process::exit(code);
}

fn replay(prop: &Prop, file: &Path) -> i32 {
    let text = match fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {e}", file.display());
            return 2;
        }
    };
    let get = |k: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(&format!("{k}: ")).or(if l == format!("{k}:") { Some("") } else { None }))
            .unwrap_or("")
            .to_string()
    };
    let (name, arg, bytes) = (get("engine"), get("arg"), get("bytes"));
    let bytes = unhex(bytes.trim()).expect("hex");
    let e = match prop.engines.iter().find(|e| e.name == name) {
        Some(e) => *e,
        None => {
            eprintln!("no engine {name}");
            return 2;
        }
    };
    let r = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || run_check(&e, &arg, &bytes))
        .unwrap()
        .join()
        .unwrap();
    match r {
        Ok(o) => {
            println!("holds: {o}");
            0
        }
        Err(w) => {
            println!("violated: {w}");
            println!("VIOLATION property={} replay={}", prop.id, file.display());
            1
        }
    }
}

fn parent(prop: &Prop) -> i32 {
    let start = Instant::now();
    let me = std::env::current_exe().unwrap();
    let crumbs = run_dir().join(format!("crumbs-{}-{}", prop.id, std::process::id()));
    {
        let f = fs::File::create(&crumbs).unwrap();
        f.set_len((SLOTS * SLOT_SIZE) as u64).unwrap();
    }
    let mut c = Command::new(&me).arg(prop.id).arg("--child").arg(&crumbs).spawn().unwrap();
    let thorough = tier_thorough();
    let total = Duration::from_secs(if thorough { 4 * 3600 } else { 840 });
    let hang = Duration::from_secs(if thorough { 240 } else { 90 });
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); SLOTS];
    let mut stuck = false;
    let status = loop {
        if let Some(s) = c.try_wait().unwrap() {
            break Some(s);
        }
        if start.elapsed() > total {
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        if let Ok(f) = fs::File::open(&crumbs) {
            use std::os::unix::fs::FileExt;
            for (i, l) in last.iter_mut().enumerate() {
                let mut b = [0u8; 16];
                if f.read_at(&mut b, (i * SLOT_SIZE) as u64).is_ok() {
                    let seq = u64::from_le_bytes(b[..8].try_into().unwrap());
                    if seq != l.0 || b[8] == 0 {
                        *l = (seq, Instant::now());
                    } else if l.1.elapsed() > hang {
                        stuck = true;
                    }
                }
            }
        }
        if stuck {
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(50));
    };
    let code = match status {
        Some(s) if matches!(s.code(), Some(0 | 1)) => s.code().unwrap(),
        Some(s) if s.code().is_some() => 2,
        s => {
            // Crash or hang: find the case responsible by replaying the ones that were running.
            let why = match (s, stuck) {
                (Some(s), _) => format!("killed by signal {:?}", s.signal()),
                (None, true) => "did not terminate".to_string(),
                (None, false) => "time limit".to_string(),
            };
            eprintln!("exploration of {} ended abnormally: {why}", prop.id);
            let data = fs::read(&crumbs).unwrap();
            let mut found = None;
            for i in 0..SLOTS {
                let slot = &data[i * SLOT_SIZE..(i + 1) * SLOT_SIZE];
                if let Some((_, true, engine, arg, bytes)) = read_slot(slot) {
                    if prop.engines.iter().all(|e| e.name != engine) {
                        continue;
                    }
                    let mut v = Viol { engine, arg, bytes, what: why.clone(), reproduced: true };
                    let path = write_replay(prop.id, &v);
                    let mut fails = vec![];
                    for _ in 0..2 {
                        let mut r = Command::new(&me)
                            .arg(prop.id)
                            .arg("--replay")
                            .arg(&path)
                            .stdout(Stdio::null())
                            .spawn()
                            .unwrap();
                        match wait(&mut r, hang) {
                            Some(s) if s.code() == Some(0) => {}
                            Some(s) if s.code() == Some(1) => fails.push("violated".to_string()),
                            Some(s) if s.code().is_some() => {}
                            Some(s) => fails.push(format!("process killed by signal {:?}", s.signal())),
                            None => fails.push("does not terminate".to_string()),
                        }
                        if fails.is_empty() {
                            break;
                        }
                    }
                    if fails.len() == 2 {
                        v.what = fails[0].clone();
                        let path = write_replay(prop.id, &v);
                        found = Some((v, path));
                        break;
                    }
                    let _ = fs::remove_file(&path);
                }
            }
            match found {
                Some((v, path)) => {
                    write_evidence(EvidenceIn {
                        prop: prop.id,
                        thorough,
                        seed: seed(),
                        wall: start.elapsed().as_secs_f64(),
                        violations: 1,
                        body: format!(
                            "{{\"states\": 0, \"transitions\": 0, \"traces_validated_against_impl\": 2, \"exhaustive\": false, \"samples\": [{}], \"notes\": {{\"ended\": {}}}}}",
                            jstr(&case_key(&v.engine, &v.arg, &v.bytes[..v.bytes.len().min(200)])),
                            jstr(&v.what)
                        ),
                    });
                    println!("  {} {} {}: {}", v.engine, v.arg, crate::model::show_hex(&v.bytes), v.what);
                    println!("VIOLATION property={} replay={}", prop.id, path.display());
                    1
                }
                None => {
                    eprintln!("the failure did not reproduce in isolation");
                    2
                }
            }
        }
    };
    let _ = fs::remove_file(&crumbs);
    code
}
