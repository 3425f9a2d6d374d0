//! The explorer: deviation-bounded, exhaustive enumeration of choice trees.
//!
//! A scenario is a function from a `Cx` to a verdict.  Every source of nondeterminism in it is a
//! `choose` (free) or `dev` (a departure from the default environment answer, at most `dev_max`
//! of them per execution) or a scheduling decision.  The explorer runs the scenario once per path
//! of the resulting tree: all of them, in order of increasing deviations, on all cores.
use std::any::Any;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

pub fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Panic payload that ends an execution after a violation was recorded.
pub struct Stop;
/// Panic payload that ends an execution whose path is not interesting (counted as complete).
pub struct Skip;
/// Panic payload for a diverging replay.
pub struct Diverged;

#[derive(Clone, Debug)]
pub struct Point {
    pub label: &'static str,
    pub n_free: u32,
    pub n: u32,
    pub chosen: u32,
}

#[derive(Default)]
struct Inner {
    prefix: Vec<u32>,
    trace: Vec<Point>,
    dev_used: u32,
    dev_max: u32,
    ops: u64,
    cases: u64,
    states: Vec<u64>,
    outcomes: BTreeMap<String, u64>,
    violation: Option<String>,
    panic: Option<String>,
    harness_panic: Option<String>,
    diverged: bool,
    verbose: bool,
    log: Vec<String>,
    findings: Vec<(String, String)>,
    fill_seed: u64,
    fill_ctr: u64,
    fill_bits: u64,
    fill_flip: Option<u64>,
    explore_select: bool,
    frozen: bool,
    last: u64,
}

pub type RngFactory = Arc<dyn Fn() -> Box<dyn vphook::HookRng> + Send + Sync>;

#[derive(Clone)]
pub struct Cx {
    i: Arc<Mutex<Inner>>,
    rng: Arc<Mutex<Option<RngFactory>>>,
    /// once an execution is over (or failed) late callers get default answers
    over: Arc<AtomicBool>,
}

fn lock<T: ?Sized>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|p| p.into_inner())
}

impl Cx {
    fn new(prefix: Vec<u32>, dev_max: u32, verbose: bool) -> Self {
        Cx {
            i: Arc::new(Mutex::new(Inner {
                prefix,
                dev_max,
                verbose,
                last: 0x9e3779b97f4a7c15,
                ..Default::default()
            })),
            rng: Arc::new(Mutex::new(None)),
            over: Arc::new(AtomicBool::new(false)),
        }
    }
    fn pick_raw(&self, label: &'static str, n_free: usize, n: usize) -> usize {
        if n <= 1 || self.over.load(SeqCst) {
            return 0;
        }
        let mut g = lock(&self.i);
        let n_free = n_free.max(1);
        let n = if g.dev_used >= g.dev_max { n_free } else { n };
        if n <= 1 {
            return 0;
        }
        let pos = g.trace.len();
        let c = match g.prefix.get(pos) {
            Some(&c) => c,
            None => 0,
        };
        if c as usize >= n {
            g.diverged = true;
            drop(g);
            std::panic::panic_any(Diverged);
        }
        if c as usize >= n_free {
            g.dev_used += 1;
        }
        g.trace.push(Point { label, n_free: n_free as u32, n: n as u32, chosen: c });
        if g.verbose {
            let l = format!("  choice {label}: {c} of {n}");
            g.log.push(l);
        }
        c as usize
    }
    /// A free choice among `n` alternatives.
    pub fn choose(&self, label: &'static str, n: usize) -> usize {
        self.pick_raw(label, n, n)
    }
    /// A deviation: 0 is the default answer, each alternative costs one deviation.
    pub fn dev(&self, label: &'static str, n: usize) -> usize {
        self.pick_raw(label, 1, n)
    }
    pub fn pick<T: Clone>(&self, label: &'static str, v: &[T]) -> T {
        v[self.choose(label, v.len())].clone()
    }
    pub fn flag(&self, label: &'static str) -> bool {
        self.choose(label, 2) == 1
    }
    /// One operation executed on the real code (a transition).
    pub fn op(&self) {
        lock(&self.i).ops += 1;
    }
    pub fn ops(&self, n: u64) {
        lock(&self.i).ops += n;
    }
    /// One inner case of an in-execution enumeration, identified by `key`.
    pub fn case<T: Hash>(&self, key: &T) {
        let mut g = lock(&self.i);
        g.cases += 1;
        g.ops += 1;
        let h = hash(&(g.last, key));
        g.states.push(h);
    }
    /// Fingerprint of a state the execution has reached (for the count of distinct states).
    pub fn state<T: Hash>(&self, s: &T) {
        let h = hash(s);
        let mut g = lock(&self.i);
        g.ops += 1;
        g.states.push(h);
    }
    /// Coarse outcome label, to see that the exploration is not vacuous.
    pub fn outcome(&self, s: &str) {
        *lock(&self.i).outcomes.entry(s.to_string()).or_insert(0) += 1;
    }
    pub fn log(&self, f: impl FnOnce() -> String) {
        let v = lock(&self.i).verbose;
        if v {
            let s = f();
            lock(&self.i).log.push(s);
        }
    }
    pub fn record_violation(&self, msg: String) {
        let mut g = lock(&self.i);
        if g.violation.is_none() {
            g.violation = Some(msg);
        }
        drop(g);
        self.over.store(true, SeqCst);
    }
    pub fn violated(&self) -> bool {
        lock(&self.i).violation.is_some()
    }
    #[track_caller]
    pub fn fail(&self, msg: impl Into<String>) -> ! {
        self.record_violation(msg.into());
        std::panic::panic_any(Stop)
    }
    #[track_caller]
    pub fn check(&self, ok: bool, msg: impl FnOnce() -> String) {
        if !ok {
            self.fail(msg())
        }
    }
    #[track_caller]
    pub fn eq<T: PartialEq + std::fmt::Debug>(&self, got: T, want: T, what: impl FnOnce() -> String) {
        if got != want {
            self.fail(format!("{}: got {}, want {}", what(), short(&got), short(&want)))
        }
    }
    pub fn skip(&self) -> ! {
        std::panic::panic_any(Skip)
    }
    /// A violation that may be one of the committed known findings (identified by `key`).
    /// Returns normally if it is listed.
    pub fn finding(&self, key: &str, msg: impl Into<String>) {
        let msg = msg.into();
        if known_keys().iter().any(|(p, k, _)| p == prop() && k == key) {
            lock(&self.i).findings.push((key.to_string(), msg));
        } else {
            self.fail(msg)
        }
    }
    /// Seed of the deterministic bytes behind `thread_rng` and `getrandom`.
    pub fn seed_fill(&self, s: u64) {
        let mut g = lock(&self.i);
        g.fill_seed = s;
        g.fill_ctr = 0;
        g.fill_bits = 0;
        g.fill_flip = None;
    }
    /// Change one bit of what is handed out from now on, counted from the last `seed_fill`.
    pub fn flip_fill(&self, bit: u64) {
        lock(&self.i).fill_flip = Some(bit);
    }
    /// Bits handed out since the last `seed_fill`.
    pub fn filled(&self) -> u64 {
        lock(&self.i).fill_bits
    }
    pub fn take_fill(&self, d: &mut [u8]) {
        vphook::Hooks::fill(self, d)
    }
    /// While frozen the scheduler takes its default choice without branching.
    pub fn freeze(&self, on: bool) {
        lock(&self.i).frozen = on;
    }
    pub fn explore_select(&self, on: bool) {
        lock(&self.i).explore_select = on;
    }
    pub fn set_rng(&self, f: Option<RngFactory>) {
        *lock(&self.rng) = f;
    }
    pub fn dev_left(&self) -> u32 {
        let g = lock(&self.i);
        g.dev_max - g.dev_used
    }
    pub fn verbose(&self) -> bool {
        lock(&self.i).verbose
    }
    /// Run `f`; a panic inside it is returned instead of being a violation.
    pub fn catch<T>(&self, f: impl FnOnce() -> T) -> Result<T, String> {
        LAST_PANIC.with(|l| l.borrow_mut().clear());
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Ok(v),
            Err(p) => {
                if is_token(&*p) {
                    std::panic::resume_unwind(p)
                }
                let m = LAST_PANIC.with(|l| l.borrow_mut().drain(..).last());
                Err(m.map(|m| m.1).unwrap_or_else(|| "panic".into()))
            }
        }
    }
    /// Run `main` under the thread scheduler.
    pub fn threads(&self, max_steps: u64, main: impl FnOnce(&Cx) + Send + 'static) -> sched::RunResult {
        let cx = self.clone();
        let cx2 = self.clone();
        let r = sched::run(
            Arc::new(self.clone()),
            max_steps,
            Box::new(move || {
                sched::time::reset_wall();
                let r = catch_unwind(AssertUnwindSafe(|| main(&cx)));
                if let Err(p) = r {
                    if !p.is::<sched::Abort>() {
                        cx.note_panic(&*p);
                    }
                    std::panic::resume_unwind(p)
                }
            }),
        );
        let g = lock(&cx2.i);
        let bad = g.violation.is_some() || g.panic.is_some() || g.harness_panic.is_some() || g.diverged;
        let skip = r.aborted && !bad;
        drop(g);
        if bad {
            std::panic::panic_any(Stop)
        }
        if skip {
            std::panic::panic_any(Skip)
        }
        r
    }
    fn note_panic(&self, p: &(dyn Any + Send)) {
        if is_token(p) {
            return;
        }
        let m = LAST_PANIC.with(|l| l.borrow_mut().drain(..).last());
        let (loc, msg) = m.unwrap_or_else(|| ("?".into(), "?".into()));
        let mut g = lock(&self.i);
        if is_harness(&loc) {
            g.harness_panic.get_or_insert(msg);
        } else {
            g.panic.get_or_insert(msg);
        }
        drop(g);
        self.over.store(true, SeqCst);
    }
}

pub fn short<T: std::fmt::Debug>(t: &T) -> String {
    let s = format!("{t:?}");
    if s.len() > 300 {
        format!("{}...({} chars)", s.chars().take(300).collect::<String>(), s.len())
    } else {
        s
    }
}

fn is_token(p: &(dyn Any + Send)) -> bool {
    p.is::<Stop>() || p.is::<Skip>() || p.is::<Diverged>() || p.is::<sched::Abort>()
}
fn is_harness(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/") || loc.starts_with("mc/src")
}

impl sched::Chooser for Cx {
    fn pick(&self, label: &'static str, n_free: usize, n: usize) -> usize {
        if lock(&self.i).frozen {
            return 0;
        }
        // a divergence must not unwind through scheduler internals
        match catch_unwind(AssertUnwindSafe(|| self.pick_raw(label, n_free, n))) {
            Ok(k) => k,
            Err(_) => {
                self.over.store(true, SeqCst);
                0
            }
        }
    }
    fn fail(&self, msg: String) {
        self.record_violation(msg)
    }
    fn thread_panicked(&self, _tid: usize, p: &(dyn Any + Send)) {
        self.note_panic(p)
    }
    fn is_token(&self, p: &(dyn Any + Send)) -> bool {
        is_token(p)
    }
}

struct MixRng {
    seed: u64,
    ctr: u64,
}
fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn det_bytes(seed: u64, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 8);
    let mut c = 0u64;
    while v.len() < n {
        v.extend_from_slice(&mix(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ mix(c)).to_le_bytes());
        c += 1;
    }
    v.truncate(n);
    v
}
impl vphook::HookRng for MixRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.ctr += 1;
        mix(self.seed ^ mix(self.ctr))
    }
    fn fill(&mut self, d: &mut [u8]) {
        self.ctr += 1;
        let b = det_bytes(self.seed ^ mix(self.ctr), d.len());
        d.copy_from_slice(&b);
    }
    fn box_clone(&self) -> Box<dyn vphook::HookRng> {
        Box::new(MixRng { seed: self.seed, ctr: self.ctr })
    }
}

impl vphook::Hooks for Cx {
    fn select(&self, n: u32) -> u32 {
        if n <= 1 || !lock(&self.i).explore_select {
            return 0;
        }
        match catch_unwind(AssertUnwindSafe(|| self.dev("select", n as usize))) {
            Ok(k) => k as u32,
            Err(_) => {
                self.over.store(true, SeqCst);
                0
            }
        }
    }
    fn std_rng(&self) -> Option<Box<dyn vphook::HookRng>> {
        let f = lock(&self.rng).clone();
        Some(match f {
            Some(f) => f(),
            None => Box::new(MixRng { seed: 77, ctr: 0 }),
        })
    }
    fn fill(&self, d: &mut [u8]) {
        let (s, c, at, flip) = {
            let mut g = lock(&self.i);
            g.fill_ctr += 1;
            let at = g.fill_bits;
            g.fill_bits += 8 * d.len() as u64;
            (g.fill_seed, g.fill_ctr, at, g.fill_flip)
        };
        let b = det_bytes(s.wrapping_mul(1000003).wrapping_add(c), d.len());
        d.copy_from_slice(&b);
        if let Some(k) = flip.and_then(|f| f.checked_sub(at)) {
            if k < 8 * d.len() as u64 {
                d[k as usize / 8] ^= 1 << (k % 8);
            }
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Vec<(String, String)>> = const { RefCell::new(Vec::new()) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if is_token(info.payload()) {
            return;
        }
        let loc = info
            .location()
            .map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "non-string panic".into());
        if std::env::var("MC_BT").is_ok() {
            eprintln!("panic at {loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        let _ = LAST_PANIC.try_with(|l| {
            l.borrow_mut().push((loc.clone(), format!("panicked at {loc}: {msg}")))
        });
    }));
}

// ------------------------------------------------------------------------------- scenarios

pub struct Scenario {
    pub name: String,
    pub dev: u32,
    /// wall limit for one execution, seconds
    pub limit: u64,
    pub f: Box<dyn Fn(&Cx) + Send + Sync>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn q<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub scen: Vec<Scenario>,
}
impl Check {
    pub fn new(id: &'static str, level: &'static str, rule: &'static str) -> Self {
        Check { id, level, rule, assumptions: vec![], scen: vec![] }
    }
    pub fn add(&mut self, name: impl Into<String>, dev: u32, f: impl Fn(&Cx) + Send + Sync + 'static) {
        self.scen.push(Scenario { name: name.into(), dev, limit: 150, f: Box::new(f) });
    }
    pub fn add_long(&mut self, name: impl Into<String>, dev: u32, limit: u64, f: impl Fn(&Cx) + Send + Sync + 'static) {
        self.scen.push(Scenario { name: name.into(), dev, limit, f: Box::new(f) });
    }
    pub fn assume(&mut self, s: &'static str) {
        self.assumptions.push(s)
    }
}

static PROP: OnceLock<String> = OnceLock::new();
fn prop() -> &'static str {
    PROP.get().map(|s| s.as_str()).unwrap_or("")
}
/// (property, key, text) of the committed known findings.
fn known_keys() -> &'static Vec<(String, String, String)> {
    static K: OnceLock<Vec<(String, String, String)>> = OnceLock::new();
    K.get_or_init(|| {
        let mut out = vec![];
        if let Ok(s) = std::fs::read_to_string(root().join("known-findings.txt")) {
            for l in s.lines() {
                // known: property=C00 key=<key> <text>
                let Some(r) = l.strip_prefix("known: property=") else { continue };
                let mut it = r.splitn(3, ' ');
                let (p, k, t) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                if let Some(k) = k.strip_prefix("key=") {
                    out.push((p.to_string(), k.to_string(), t.to_string()));
                }
            }
        }
        out
    })
}
pub fn root() -> std::path::PathBuf {
    std::env::var("VERIF_ROOT").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

/// Work left on one executed path: at position `at` alternative `alt`, then the further
/// alternatives there, then those of all later positions.  The root has no path.
struct Item {
    s: usize,
    path: Option<Arc<[Pt]>>,
    at: u32,
    alt: u32,
    /// deviations of the path before `at`
    before: u32,
}
#[derive(Clone, Copy)]
struct Pt {
    chosen: u32,
    n: u32,
    n_free: u32,
}
impl Item {
    fn devs(&self) -> u32 {
        match &self.path {
            Some(p) => self.before + (self.alt >= p[self.at as usize].n_free) as u32,
            None => 0,
        }
    }
    fn prefix(&self) -> Vec<u32> {
        match &self.path {
            Some(p) => p[..self.at as usize].iter().map(|x| x.chosen).chain([self.alt]).collect(),
            None => vec![],
        }
    }
    /// The work on `path` from position `at` on.
    fn first(s: usize, path: Arc<[Pt]>, mut at: usize, mut before: u32) -> Option<Item> {
        while at < path.len() {
            if path[at].n > 1 {
                return Some(Item { s, at: at as u32, alt: 1, before, path: Some(path) });
            }
            before += (path[at].chosen >= path[at].n_free) as u32;
            at += 1;
        }
        None
    }
    /// What is left once this alternative has been taken.
    fn next(&self) -> Option<Item> {
        let p = self.path.as_ref()?;
        let pt = p[self.at as usize];
        if self.alt + 1 < pt.n {
            return Some(Item { s: self.s, path: Some(p.clone()), at: self.at, alt: self.alt + 1, before: self.before });
        }
        Item::first(self.s, p.clone(), self.at as usize + 1, self.before + (pt.chosen >= pt.n_free) as u32)
    }
}

#[derive(Default, Clone)]
struct Stat {
    execs: u64,
    points: u64,
    ops: u64,
    cases: u64,
    max_dev: u32,
    max_depth: usize,
    outcomes: BTreeMap<String, u64>,
    millis: u64,
}

struct Queue {
    buckets: Vec<Vec<Item>>,
    running: usize,
}

enum End {
    Ok,
    Violation(String),
    Harness(String),
    Diverged,
}

struct Exec {
    end: End,
    trace: Vec<Point>,
    inner: Inner,
}

fn execute(sc: &Scenario, prefix: Vec<u32>, verbose: bool, publish: Option<&Mutex<Option<(Instant, Cx)>>>) -> Exec {
    let cx = Cx::new(prefix, sc.dev, verbose);
    if let Some(p) = publish {
        *lock(p) = Some((Instant::now(), cx.clone()));
    }
    LAST_PANIC.with(|l| l.borrow_mut().clear());
    // per-thread lazy initialisation must not draw from the execution's own bytes
    secp256k1::rand::RngCore::next_u32(&mut secp256k1::rand::thread_rng());
    vphook::install(Some(Arc::new(cx.clone())));
    let r = catch_unwind(AssertUnwindSafe(|| (sc.f)(&cx)));
    vphook::install(None);
    sched::time::set_fixed_wall_ms(None);
    cx.over.store(true, SeqCst);
    cx.set_rng(None);
    if let Some(p) = publish {
        *lock(p) = None;
    }
    if let Err(p) = &r {
        cx.note_panic(&**p);
    }
    // panics swallowed by a runtime (for example inside a spawned task)
    let swallowed = LAST_PANIC.with(|l| l.borrow_mut().drain(..).collect::<Vec<_>>());
    let mut g = lock(&cx.i);
    for (loc, m) in swallowed {
        if is_harness(&loc) {
            g.harness_panic.get_or_insert(m);
        } else {
            g.panic.get_or_insert(m);
        }
    }
    let inner = std::mem::take(&mut *g);
    drop(g);
    let end = if let Some(v) = &inner.violation {
        End::Violation(v.clone())
    } else if inner.diverged {
        End::Diverged
    } else if let Some(m) = &inner.panic {
        End::Violation(m.clone())
    } else if let Some(m) = &inner.harness_panic {
        End::Harness(m.clone())
    } else if inner.trace.len() < inner.prefix.len() {
        End::Diverged
    } else {
        End::Ok
    };
    Exec { end, trace: inner.trace.clone(), inner }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_replay(id: &str, sc: &str, choices: &[u32], trace: &[Point], msg: &str, serial: bool) -> String {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{:016x}.replay", hash(&(sc, choices, msg))));
    let mut s = String::new();
    s += &format!("property {id}\nscenario {sc}\nchoices {}\n", choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","));
    s += &format!("message {}\nbuild {}\n", msg.replace('\n', " "), BUILD);
    if serial {
        s += "note the failure depends on earlier executions in the process; rerun the whole check with MC_SERIAL=1\n";
    }
    for p in trace {
        s += &format!("# {} chose {} of {}\n", p.label, p.chosen, p.n);
    }
    let _ = std::fs::write(&path, s);
    path.display().to_string()
}

static SECONDS_CAP: AtomicU64 = AtomicU64::new(0);
/// Which of the two builds this is.
pub const PLAIN: bool = !cfg!(debug_assertions);
const BUILD: &str = if PLAIN { "plain" } else { "release" };

/// Explore every scenario of the check.  Returns the process exit code.
pub fn run_check(c: Check, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let _ = PROP.set(c.id.to_string());
    install_hook();
    if let Err(e) = crate::refm::selftest() {
        eprintln!("ERROR: {e}");
        return 2;
    }
    let serial = std::env::var("MC_SERIAL").is_ok();
    let nthreads = if serial {
        1
    } else {
        std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
            std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
        })
    };
    let cap: u64 = std::env::var("MC_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if PLAIN { 330 } else { tier.q(400, 6 * 3600) });
    SECONDS_CAP.store(cap, SeqCst);
    let only = std::env::var("MC_ONLY").ok();

    let c = Arc::new(c);
    let q = Arc::new(Mutex::new(Queue { buckets: (0..12).map(|_| Vec::new()).collect(), running: 0 }));
    {
        let mut g = lock(&q);
        for (i, sc) in c.scen.iter().enumerate().rev() {
            if only.as_ref().is_some_and(|o| !sc.name.contains(o.as_str())) {
                continue;
            }
            g.buckets[0].push(Item { s: i, path: None, at: 0, alt: 0, before: 0 });
        }
    }
    let stats: Arc<Mutex<Vec<Stat>>> = Arc::new(Mutex::new(vec![Stat::default(); c.scen.len()]));
    let states: Arc<Vec<Mutex<HashSet<u64>>>> = Arc::new((0..64).map(|_| Mutex::new(HashSet::new())).collect());
    let samples: Arc<Mutex<BTreeMap<usize, Vec<String>>>> = Arc::new(Mutex::new(BTreeMap::new()));
    let found: Arc<Mutex<Option<(usize, Vec<Point>, End)>>> = Arc::new(Mutex::new(None));
    let findings: Arc<Mutex<BTreeMap<String, (String, u64)>>> = Arc::new(Mutex::new(BTreeMap::new()));
    let stop = Arc::new(AtomicBool::new(false));
    let capped = Arc::new(AtomicBool::new(false));
    let idle = Arc::new(AtomicUsize::new(0));
    let slots: Arc<Vec<Mutex<Option<(Instant, Cx)>>>> = Arc::new((0..nthreads).map(|_| Mutex::new(None)).collect());
    let slot_sc: Arc<Vec<AtomicUsize>> = Arc::new((0..nthreads).map(|_| AtomicUsize::new(0)).collect());

    let mut hs = vec![];
    for w in 0..nthreads {
        let (c, q, stats, states, samples, found, findings, stop, capped, idle, slots, slot_sc) = (
            c.clone(), q.clone(), stats.clone(), states.clone(), samples.clone(), found.clone(),
            findings.clone(), stop.clone(), capped.clone(), idle.clone(), slots.clone(), slot_sc.clone(),
        );
        let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            let mut local: BTreeMap<usize, Stat> = BTreeMap::new();
            let mut st_buf: Vec<u64> = vec![];
            let mut batch: Vec<Item> = vec![];
            let mut newi: Vec<Item> = vec![];
            loop {
                if stop.load(SeqCst) {
                    break;
                }
                if t0.elapsed().as_secs() > cap {
                    capped.store(true, SeqCst);
                    break;
                }
                if batch.is_empty() {
                    let mut g = lock(&q);
                    if !newi.is_empty() {
                        for it in newi.drain(..) {
                            let b = (it.devs() as usize).min(11);
                            g.buckets[b].push(it);
                        }
                    }
                    let total: usize = g.buckets.iter().map(|b| b.len()).sum();
                    if total == 0 {
                        if g.running == 0 {
                            break;
                        }
                        drop(g);
                        idle.fetch_add(1, SeqCst);
                        std::thread::sleep(Duration::from_micros(300));
                        continue;
                    }
                    let want = (total / (nthreads * 4)).clamp(1, 64);
                    for b in g.buckets.iter_mut() {
                        while batch.len() < want {
                            match b.pop() {
                                Some(it) => batch.push(it),
                                None => break,
                            }
                        }
                        if batch.len() >= want || !batch.is_empty() {
                            break;
                        }
                    }
                    g.running += 1;
                    batch.reverse();
                }
                let it = batch.pop().unwrap();
                if let Some(x) = it.next() {
                    if batch.is_empty() {
                        let mut g = lock(&q);
                        g.buckets[(x.devs() as usize).min(11)].push(x);
                    } else {
                        newi.push(x);
                    }
                }
                let prefix = it.prefix();
                let sc = &c.scen[it.s];
                slot_sc[w].store(it.s, SeqCst);
                let base = prefix.len();
                let te = Instant::now();
                let ex = execute(sc, prefix, false, Some(&slots[w]));
                let st = local.entry(it.s).or_default();
                st.execs += 1;
                st.millis += te.elapsed().as_micros() as u64;
                st.points += ex.trace.len() as u64;
                st.ops += ex.inner.ops;
                st.cases += ex.inner.cases;
                st.max_dev = st.max_dev.max(ex.inner.dev_used);
                st.max_depth = st.max_depth.max(ex.trace.len());
                for (k, v) in &ex.inner.outcomes {
                    *st.outcomes.entry(k.clone()).or_insert(0) += v;
                }
                if st.execs <= 2 {
                    let mut sm = lock(&samples);
                    let v = sm.entry(it.s).or_default();
                    if v.len() < 2 {
                        let path: Vec<String> = ex.trace.iter().take(40).map(|p| format!("{}={}/{}", p.label, p.chosen, p.n)).collect();
                        v.push(format!("{}: [{}] ops={} -> {}", sc.name, path.join(" "), ex.inner.ops,
                            ex.inner.outcomes.keys().cloned().collect::<Vec<_>>().join(",")));
                    }
                }
                st_buf.extend_from_slice(&ex.inner.states);
                // the leaf itself is a state: the path plus what was observed
                st_buf.push(hash(&(it.s, ex.trace.iter().map(|p| p.chosen).collect::<Vec<_>>())));
                if st_buf.len() > 4096 {
                    for s in st_buf.drain(..) {
                        let mut g = lock(&states[(s & 63) as usize]);
                        if g.len() < 400_000 {
                            g.insert(s);
                        }
                    }
                }
                for (k, m) in &ex.inner.findings {
                    lock(&findings).entry(k.clone()).or_insert((m.clone(), 0)).1 += 1;
                }
                match ex.end {
                    End::Ok => {
                        let path: Arc<[Pt]> = ex.trace.iter().map(|p| Pt { chosen: p.chosen, n: p.n, n_free: p.n_free }).collect();
                        let before = path[..base].iter().filter(|p| p.chosen >= p.n_free).count() as u32;
                        newi.extend(Item::first(it.s, path, base, before));
                    }
                    e => {
                        let mut f = lock(&found);
                        if f.is_none() {
                            *f = Some((it.s, ex.trace, e));
                        }
                        stop.store(true, SeqCst);
                    }
                }
                if batch.is_empty() {
                    let mut g = lock(&q);
                    for it in newi.drain(..) {
                        let b = (it.devs() as usize).min(11);
                        g.buckets[b].push(it);
                    }
                    g.running -= 1;
                }
            }
            for s in st_buf.drain(..) {
                let mut g = lock(&states[(s & 63) as usize]);
                if g.len() < 400_000 {
                    g.insert(s);
                }
            }
            let mut g = lock(&stats);
            for (k, v) in local {
                let s = &mut g[k];
                s.execs += v.execs;
                s.points += v.points;
                s.ops += v.ops;
                s.cases += v.cases;
                s.millis += v.millis;
                s.max_dev = s.max_dev.max(v.max_dev);
                s.max_depth = s.max_depth.max(v.max_depth);
                for (o, n) in v.outcomes {
                    *s.outcomes.entry(o).or_insert(0) += n;
                }
            }
        });
        hs.push(h.expect("spawn worker"));
    }
    // watchdog
    let done = Arc::new(AtomicBool::new(false));
    {
        let (c, slots, slot_sc, done, stop) = (c.clone(), slots.clone(), slot_sc.clone(), done.clone(), stop.clone());
        // Time is counted in ticks of this thread, so a stopped or suspended process does not count.
        let mut ticks: Vec<(Option<Instant>, u64)> = vec![(None, 0); slots.len()];
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            if done.load(SeqCst) {
                return;
            }
            for (w, s) in slots.iter().enumerate() {
                let hit = {
                    let g = lock(s);
                    match &*g {
                        Some((t, cx)) => {
                            let sc = &c.scen[slot_sc[w].load(SeqCst)];
                            if ticks[w].0 != Some(*t) {
                                ticks[w] = (Some(*t), 0);
                            }
                            ticks[w].1 += 1;
                            if ticks[w].1 > 2 * sc.limit { Some((cx.clone(), sc.name.clone(), sc.limit)) } else { None }
                        }
                        None => None,
                    }
                };
                if let Some((cx, name, limit)) = hit {
                    if stop.load(SeqCst) {
                        continue;
                    }
                    let trace = match cx.i.try_lock() {
                        Ok(g) => g.trace.clone(),
                        Err(_) => vec![],
                    };
                    let ch: Vec<u32> = trace.iter().map(|p| p.chosen).collect();
                    let msg = format!("execution did not terminate within {limit} s");
                    let path = write_replay(c.id, &name, &ch, &trace, &msg, false);
                    println!("{}: scenario {name}: {msg}", c.id);
                    println!("VIOLATION property={} replay={path}", c.id);
                    std::process::exit(1);
                }
            }
        });
    }
    for h in hs {
        if h.join().is_err() {
            eprintln!("ERROR: explorer worker panicked");
            return 2;
        }
    }
    done.store(true, SeqCst);

    let f = lock(&found).take();
    let mut code = 0;
    if let Some((s, trace, end)) = f {
        let sc = &c.scen[s];
        let ch: Vec<u32> = trace.iter().map(|p| p.chosen).collect();
        match end {
            End::Violation(msg) => {
                if serial {
                    let path = write_replay(c.id, &sc.name, &ch, &trace, &msg, true);
                    println!("{}: scenario {}: {msg}", c.id, sc.name);
                    println!("VIOLATION property={} replay={path}", c.id);
                    code = 1;
                } else {
                    // replay twice; the observation must be the same
                    let again: Vec<Option<String>> = (0..2)
                        .map(|_| match execute(sc, ch.clone(), false, None).end {
                            End::Violation(m) => Some(m),
                            _ => None,
                        })
                        .collect();
                    if again.iter().all(|m| m.as_deref() == Some(msg.as_str())) {
                        let path = write_replay(c.id, &sc.name, &ch, &trace, &msg, false);
                        println!("{}: scenario {}: {msg}", c.id, sc.name);
                        println!("VIOLATION property={} replay={path}", c.id);
                        code = 1;
                    } else {
                        eprintln!("{}: violation in {} not reproduced by replay ({msg} / {again:?}); exploring serially in a fresh process", c.id, sc.name);
                        return rerun_serial();
                    }
                }
            }
            End::Harness(m) => {
                eprintln!("ERROR: harness panic in scenario {}: {m}\n  path {ch:?}", sc.name);
                code = 2;
            }
            End::Diverged => {
                if serial {
                    eprintln!("ERROR: replay diverged in scenario {}: path {ch:?}", sc.name);
                    code = 2;
                } else {
                    eprintln!("{}: replay diverged in {}; exploring serially in a fresh process", c.id, sc.name);
                    return rerun_serial();
                }
            }
            End::Ok => {}
        }
    }

    let n_states: usize = states.iter().map(|s| lock(s).len()).sum();
    let stats = lock(&stats);
    let execs: u64 = stats.iter().map(|s| s.execs).sum();
    let ops: u64 = stats.iter().map(|s| s.ops).sum();
    let points: u64 = stats.iter().map(|s| s.points).sum();
    let cases: u64 = stats.iter().map(|s| s.cases).sum();
    let exhausted = !capped.load(SeqCst) && code == 0 && only.is_none();
    let mut samp = vec![];
    for (_, v) in lock(&samples).iter() {
        samp.extend(v.iter().take(1).cloned());
    }
    samp.truncate(24);
    let per: Vec<String> = c
        .scen
        .iter()
        .zip(stats.iter())
        .map(|(sc, s)| {
            format!(
                "{{\"name\":{},\"executions\":{},\"choice_points\":{},\"operations\":{},\"inner_cases\":{},\"deviation_bound\":{},\"max_deviations\":{},\"max_depth\":{},\"cpu_ms\":{},\"outcomes\":{{{}}}}}",
                json_str(&sc.name), s.execs, s.points, s.ops, s.cases, sc.dev, s.max_dev, s.max_depth, s.millis / 1000,
                s.outcomes.iter().map(|(k, v)| format!("{}:{v}", json_str(k))).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    let seed: u64 = seed();
    let cov_counts = match c.level {
        "model_checking" => format!(
            "\"states\":{n_states},\"transitions\":{ops},\"traces_validated_against_impl\":{execs}"
        ),
        _ => format!("\"evaluations\":{},\"distinct_nontrivial\":{n_states}", execs + cases),
    };
    // the checked build's evidence includes what the plain build has covered just before
    let other = root().join(".build").join(format!("plain-{}.json", c.id));
    let second = if PLAIN { None } else { std::fs::read_to_string(&other).ok() };
    let extra = second.map(|s| format!(",\"build_without_debug_assertions\":{}", s.trim())).unwrap_or_default();
    let ev = format!(
        "{{\"property\":{},\"tier\":\"{}\",\"seed\":{seed},\"level\":{},\"coverage\":{{{cov_counts},\"rule\":{},\"exhaustive\":{exhausted},\"choice_points\":{points},\"samples\":[{}],\"scenarios\":[{}]{extra}}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
        json_str(c.id),
        tier.q("quick", "thorough"),
        json_str(c.level),
        json_str(c.rule),
        samp.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","),
        per.join(","),
        c.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","),
        t0.elapsed().as_secs_f64(),
        (code == 1) as u32,
    );
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let file = if PLAIN && code == 0 { other.clone() } else { dir.join(format!("{}.json", c.id)) };
    let ev = if PLAIN && code == 0 {
        format!("{{\"exhaustive\":{exhausted},{cov_counts},\"executions\":{execs},\"choice_points\":{points},\"wall_s\":{:.3}}}\n", t0.elapsed().as_secs_f64())
    } else {
        let _ = std::fs::remove_file(&other);
        ev
    };
    if let Err(e) = std::fs::write(file, ev) {
        eprintln!("ERROR: cannot write evidence: {e}");
        return 2;
    }
    for (k, (m, n)) in lock(&findings).iter() {
        let text = known_keys().iter().find(|x| x.0 == c.id && &x.1 == k).map(|x| x.2.clone()).unwrap_or_default();
        println!("KNOWN-FINDING: property={} {text} [{m}; {n} executions]", c.id);
    }
    if std::env::var("MC_STATS").is_ok() {
        for (sc, s) in c.scen.iter().zip(stats.iter()) {
            println!(
                "  {:44} execs={:<8} ops={:<9} points={:<9} dev<={} depth={} cpu={}ms {:?}",
                sc.name, s.execs, s.ops, s.points, s.max_dev, s.max_depth, s.millis / 1000,
                s.outcomes
            );
        }
    }
    println!(
        "{} {} ({BUILD}): {} scenarios, {execs} executions, {ops} operations, {n_states} distinct states, {points} choice points, {:.1}s{}",
        c.id, tier.q("quick", "thorough"), c.scen.len(), t0.elapsed().as_secs_f64(),
        if capped.load(SeqCst) { " (CAPPED: time limit reached, not exhaustive)" } else { "" }
    );
    code
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn rerun_serial() -> i32 {
    let exe = std::env::current_exe().expect("exe");
    match std::process::Command::new(exe).args(std::env::args().skip(1)).env("MC_SERIAL", "1").status() {
        Ok(s) => s.code().unwrap_or(2),
        Err(_) => 2,
    }
}

/// Re-run one recorded path, verbosely.
pub fn replay(c: Check, file: &str) -> i32 {
    let _ = PROP.set(c.id.to_string());
    install_hook();
    let s = std::fs::read_to_string(file).expect("replay file");
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{k} "))).unwrap_or("").to_string();
    let name = get("scenario");
    let ch: Vec<u32> = get("choices").split(',').filter_map(|x| x.parse().ok()).collect();
    let Some(sc) = c.scen.iter().find(|x| x.name == name) else {
        eprintln!("no scenario {name}");
        return 2;
    };
    let ex = execute(sc, ch, true, None);
    for l in &ex.inner.log {
        println!("{l}");
    }
    match ex.end {
        End::Violation(m) => {
            println!("{m}\nVIOLATION property={} replay={file}", c.id);
            1
        }
        End::Ok => {
            println!("no violation on this path");
            0
        }
        End::Harness(m) => {
            println!("harness error {m}");
            2
        }
        End::Diverged => {
            println!("replay diverged");
            2
        }
    }
}

pub fn lockm<T: ?Sized>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    lock(m)
}
