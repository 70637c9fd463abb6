//! Choice-sequence property engine: generation, replay, shrinking, parallel running.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- rng

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed ^ 0x5bd1_e995_97f4_a7c5))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n (n >= 1).
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0100_0000_01b3);
    }
    mix(h)
}

// ---------------------------------------------------------------- choice source

enum Mode {
    Rand(Rng),
    Replay(Vec<u64>, usize),
    Bytes(Vec<u8>, usize),
}

/// The only source of nondeterminism of a case.
pub struct Src {
    mode: Mode,
    pub rec: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    forced_first: Option<u64>,
    stream: Option<std::fs::File>,
    /// The case in the encoding `Src::bytes` reads.
    pub encoded: Option<Vec<u8>>,
}

impl Src {
    pub fn random(seed: u64, forced_first: Option<u64>) -> Src {
        let stream = std::env::var_os("GV_RECORD").and_then(|p| std::fs::File::create(p).ok());
        Src { mode: Mode::Rand(Rng::new(seed)), rec: Vec::new(), spans: Vec::new(), forced_first, stream, encoded: None }
    }
    pub fn replay(choices: Vec<u64>) -> Src {
        Src { mode: Mode::Replay(choices, 0), rec: Vec::new(), spans: Vec::new(), forced_first: None, stream: None, encoded: None }
    }
    pub fn bytes(data: Vec<u8>, record: bool) -> Src {
        let stream =
            if record { std::env::var_os("GV_RECORD").and_then(|p| std::fs::File::create(p).ok()) } else { None };
        Src { mode: Mode::Bytes(data, 0), rec: Vec::new(), spans: Vec::new(), forced_first: None, stream, encoded: None }
    }

    /// Bytes that one choice below `bound` takes in `Mode::Bytes`.
    fn width(bound: u64) -> usize {
        match bound {
            1 => 0,
            2..=0x100 => 1,
            0x101..=0x1_0000 => 2,
            0x1_0001..=0x1_0000_0000 => 4,
            _ => 8,
        }
    }

    /// Draws a value in `0..bound` (`bound == 0` means any u64) using `sample` in random mode.
    pub fn draw(&mut self, bound: u64, sample: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let clamp = |v: u64| if bound == 0 { v } else { v % bound };
        let v = if let (Some(f), true) = (self.forced_first, self.rec.is_empty()) {
            clamp(f)
        } else {
            match &mut self.mode {
                Mode::Rand(rng) => clamp(sample(rng)),
                Mode::Replay(c, pos) => {
                    let v = c.get(*pos).copied().unwrap_or(0);
                    *pos += 1;
                    clamp(v)
                }
                Mode::Bytes(data, pos) => {
                    let n = Src::width(bound);
                    let mut v = 0u64;
                    for i in 0..n {
                        v |= (data.get(*pos + i).copied().unwrap_or(0) as u64) << (8 * i);
                    }
                    *pos += n;
                    clamp(v)
                }
            }
        };
        self.rec.push(v);
        if let Some(e) = &mut self.encoded {
            e.extend_from_slice(&v.to_le_bytes()[..Src::width(bound)]);
        }
        if let Some(f) = &mut self.stream {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }

    pub fn below(&mut self, n: u64) -> u64 {
        self.draw(n, |r| r.below(n))
    }
    pub fn index(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range, shrinks towards `lo`.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        debug_assert!(lo <= hi);
        lo + self.below(hi - lo + 1)
    }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn u64(&mut self) -> u64 {
        self.draw(0, |r| r.next())
    }
    /// A seed for expanding bulk content; small range so that it shrinks quickly.
    pub fn seed(&mut self) -> u64 {
        self.draw(1 << 32, |r| r.next())
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(2, |r| (r.below(den) < num) as u64) == 1
    }
    pub fn pick<T: Copy>(&mut self, items: &[T]) -> T {
        items[self.index(items.len())]
    }
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        self.draw(weights.len() as u64, |r| {
            let mut x = r.below(total);
            for (i, w) in weights.iter().enumerate() {
                if x < *w {
                    return i as u64;
                }
                x -= w;
            }
            0
        }) as usize
    }
    /// Log-uniform-ish value in lo..=hi.
    pub fn log_range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo + 1, |r| {
            let span = hi - lo + 1;
            let bits = 64 - span.leading_zeros() as u64;
            let b = r.below(bits + 1);
            let m = if b >= 64 { u64::MAX } else { (1u64 << b) - 1 };
            (r.next() & m) % span
        })
    }
    pub fn span<T>(&mut self, f: impl FnOnce(&mut Src) -> T) -> T {
        let start = self.rec.len();
        let t = f(self);
        let end = self.rec.len();
        if end > start {
            self.spans.push((start, end));
        }
        t
    }
    /// A list whose elements can be deleted independently while shrinking.
    pub fn list<T>(&mut self, min: usize, max: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        let target = match &mut self.mode {
            Mode::Rand(r) => {
                let span = (max - min + 1) as u64;
                min + r.below(span) as usize
            }
            _ => 0,
        };
        let mut out = Vec::new();
        while out.len() < max {
            let start = self.rec.len();
            let cont = {
                let want = out.len() < target;
                self.draw(2, |_| want as u64) == 1
            };
            if !cont && out.len() >= min {
                break;
            }
            out.push(f(self));
            let end = self.rec.len();
            self.spans.push((start, end));
        }
        out
    }
}

// ---------------------------------------------------------------- per-case context

#[derive(Default)]
pub struct Ctx {
    pub labels: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub want_sample: bool,
    pub sample: Option<String>,
    pub verbose: bool,
    pub notes: Vec<String>,
    pub known: Vec<(String, String)>,
    pub thorough: bool,
}

thread_local! {
    static KNOWN: RefCell<Vec<(String, String)>> = const { RefCell::new(Vec::new()) };
}
static KNOWN_LIST: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());

pub fn load_known(path: &str, prop: &str) {
    // format: "known: property=<id> sig=<signature> <what fails>"
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let mut list = KNOWN_LIST.lock().unwrap();
    list.clear();
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("known: ") {
            let mut it = rest.splitn(3, ' ');
            let (p, s, w) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            if p.strip_prefix("property=") == Some(prop) {
                if let Some(s) = s.strip_prefix("sig=") {
                    list.push((s.to_string(), w.to_string()));
                }
            }
        }
    }
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_default() += 1;
    }
    pub fn count(&mut self, l: &'static str, n: u64) {
        *self.labels.entry(l).or_default() += n;
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if (self.want_sample || self.verbose) && self.sample.is_none() {
            self.sample = Some(f());
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose && self.notes.len() < 400 {
            self.notes.push(f());
        }
    }
    /// A violation with an exact signature: accepted only if the known-findings file lists it.
    pub fn known(&mut self, sig: &str, detail: impl FnOnce() -> String) -> Result<(), String> {
        let list = KNOWN_LIST.lock().unwrap();
        if let Some((_, what)) = list.iter().find(|(s, _)| s == sig) {
            if !self.known.iter().any(|(s, _)| s == sig) {
                self.known.push((sig.to_string(), what.clone()));
            }
            *self.labels.entry("known-finding-hits").or_default() += 1;
            Ok(())
        } else {
            Err(format!("[{sig}] {}", detail()))
        }
    }
}

pub type CaseResult = Result<(), String>;
pub type CaseFn = fn(&mut Src, &mut Ctx) -> CaseResult;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond { return Err(format!($($arg)*)); }
    };
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    /// `count` random cases.
    Random,
    /// The first choice enumerates 0..count; the rest is random.
    Enum,
}

#[derive(Clone, Copy)]
pub struct Phase {
    pub name: &'static str,
    pub kind: Kind,
    pub quick: u64,
    pub thorough: u64,
    /// Upper bound on the number of worker threads (memory-hungry or allocator-measuring phases).
    pub threads: usize,
    pub hook: bool,
    /// Only under the guard allocator.
    pub mem: bool,
    /// Multiplies the quick count in builds without the hooks, which miss other phases.
    pub unhooked: u64,
    pub f: CaseFn,
}

impl Phase {
    pub const fn random(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Phase {
        Phase { name, kind: Kind::Random, quick, thorough, threads: 64, hook: false, mem: false, unhooked: 1, f }
    }
    pub const fn enumerate(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Phase {
        Phase { name, kind: Kind::Enum, quick, thorough, threads: 64, hook: false, mem: false, unhooked: 1, f }
    }
    pub const fn threads(mut self, n: usize) -> Phase {
        self.threads = n;
        self
    }
    pub const fn unhooked(mut self, times: u64) -> Phase {
        self.unhooked = times;
        self
    }
    pub const fn mem(mut self) -> Phase {
        self.mem = true;
        self
    }
    pub const fn hook(mut self) -> Phase {
        self.hook = true;
        self
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub phases: Vec<Phase>,
}

// ---------------------------------------------------------------- running one case

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
static OTHER_PANIC: Mutex<Option<String>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "<non-string panic>".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let full: String = format!("{msg} at {loc}").chars().take(600).collect();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(full.clone()));
        // outlives the case: not accounted for
        crate::memprobe::exempt(|| {
            if let Ok(mut g) = OTHER_PANIC.try_lock() {
                *g = Some(full.clone());
            }
        });
    }));
}

pub fn take_panic() -> String {
    LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .or_else(|| OTHER_PANIC.lock().ok().and_then(|mut g| g.take()))
        .unwrap_or_else(|| "unknown panic".into())
}

/// Runs `f`, turning a panic into `Err(message)`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| take_panic())
}

pub fn run_case(f: CaseFn, src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    match catch(|| f(src, ctx)) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {p}")),
    }
}

pub fn case_seed(seed: u64, prop: &str, phase: &str, case: u64) -> u64 {
    mix(mix(seed ^ hash_str(prop)) ^ hash_str(phase)).wrapping_add(mix(case))
}

pub fn make_src(seed: u64, prop: &str, phase: &Phase, case: u64) -> Src {
    let forced = (phase.kind == Kind::Enum).then_some(case);
    Src::random(case_seed(seed, prop, phase.name, case), forced)
}

// ---------------------------------------------------------------- running a phase

pub struct Failure {
    pub phase: &'static str,
    pub case: u64,
    pub choices: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    pub msg: String,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, String>,
    pub phases: Vec<(String, u64, f64)>,
}

pub trait Status: Sync {
    fn begin(&self, thread: usize, phase: usize, case: u64);
    fn end(&self, thread: usize);
}

pub struct NoStatus;
impl Status for NoStatus {
    fn begin(&self, _: usize, _: usize, _: u64) {}
    fn end(&self, _: usize) {}
}

pub fn run_phase(
    prop: &Prop,
    phase_idx: usize,
    seed: u64,
    thorough: bool,
    scale: f64,
    stats: &mut Stats,
    status: &dyn Status,
) -> Option<Failure> {
    let phase = &prop.phases[phase_idx];
    let mut count = if thorough { phase.thorough } else { phase.quick * if cfg!(feature = "hook") { 1 } else { phase.unhooked } };
    if phase.kind == Kind::Random {
        count = ((count as f64) * scale).ceil() as u64;
    }
    let start = Instant::now();
    let threads = std::env::var("GV_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4))
        .min(phase.threads)
        .min(count.max(1) as usize);
    let next = AtomicU64::new(0);
    let best_fail = AtomicU64::new(u64::MAX);
    let fails: Mutex<Option<Failure>> = Mutex::new(None);
    let merged: Mutex<Stats> = Mutex::new(Stats::default());

    std::thread::scope(|scope| {
        for t in 0..threads {
            let (next, best_fail, fails, merged) = (&next, &best_fail, &fails, &merged);
            std::thread::Builder::new()
                .stack_size(32 << 20)
                .spawn_scoped(scope, move || {
                    let mut local = Stats::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= count || i > best_fail.load(Ordering::Relaxed) {
                            break;
                        }
                        let mut src = make_src(seed, prop.id, phase, i);
                        let mut ctx = Ctx { thorough, ..Ctx::default() };
                        // samples are chosen by case index so that they do not depend on timing
                        ctx.want_sample = i % (count / 3 + 1) == count / 7;
                        status.begin(t, phase_idx, i);
                        let r = run_case(phase.f, &mut src, &mut ctx);
                        status.end(t);
                        local.evaluations += 1;
                        for (k, v) in &ctx.labels {
                            *local.labels.entry(k.to_string()).or_default() += v;
                        }
                        for (k, v) in ctx.known.drain(..) {
                            local.known.insert(k, v);
                        }
                        if ctx.nontrivial {
                            let mut h = hash_str(phase.name);
                            for c in &src.rec {
                                h = mix(h ^ *c);
                            }
                            local.nontrivial.insert(h);
                        }
                        if let Some(s) = ctx.sample.take() {
                            if ctx.want_sample {
                                local.samples.push(format!("{}#{i}: {s}", phase.name));
                            }
                        }
                        if let Err(msg) = r {
                            let mut g = fails.lock().unwrap();
                            let better = g.as_ref().is_none_or(|f| i < f.case);
                            if better {
                                best_fail.fetch_min(i, Ordering::Relaxed);
                                *g = Some(Failure {
                                    phase: phase.name,
                                    case: i,
                                    choices: std::mem::take(&mut src.rec),
                                    spans: std::mem::take(&mut src.spans),
                                    msg,
                                });
                            }
                        }
                    }
                    let mut m = merged.lock().unwrap();
                    m.evaluations += local.evaluations;
                    m.nontrivial.extend(local.nontrivial);
                    for (k, v) in local.labels {
                        *m.labels.entry(k).or_default() += v;
                    }
                    m.samples.extend(local.samples);
                    m.known.extend(local.known);
                })
                .unwrap();
        }
    });

    let m = merged.into_inner().unwrap();
    stats.evaluations += m.evaluations;
    stats.nontrivial.extend(m.nontrivial);
    for (k, v) in m.labels {
        *stats.labels.entry(format!("{}/{k}", phase.name)).or_default() += v;
    }
    let mut samples = m.samples;
    samples.sort();
    stats.samples.extend(samples);
    stats.known.extend(m.known);
    stats.phases.push((phase.name.to_string(), m.evaluations, start.elapsed().as_secs_f64()));
    fails.into_inner().unwrap()
}

// ---------------------------------------------------------------- shrinking

pub struct Evald {
    pub choices: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    pub msg: String,
}

/// `eval` returns `Some` when the candidate still fails.
pub fn shrink(
    start: Evald,
    max_evals: usize,
    max_time: Duration,
    eval: &mut dyn FnMut(Vec<u64>) -> Option<Evald>,
) -> (Evald, usize) {
    let t0 = Instant::now();
    let mut best = start;
    let mut evals = 0usize;
    fn less(a: &[u64], b: &[u64]) -> bool {
        a.len() < b.len() || (a.len() == b.len() && a < b)
    }
    macro_rules! attempt {
        ($cand:expr) => {{
            if evals >= max_evals || t0.elapsed() > max_time {
                return (best, evals);
            }
            evals += 1;
            match eval($cand) {
                Some(e) if less(&e.choices, &best.choices) => {
                    best = e;
                    true
                }
                _ => false,
            }
        }};
    }
    loop {
        let before = best.choices.clone();
        // truncate the tail
        let mut cut = best.choices.len() / 2;
        while cut > 0 {
            let n = best.choices.len().saturating_sub(cut);
            if !attempt!(best.choices[..n].to_vec()) {
                cut /= 2;
            } else {
                cut = cut.min(best.choices.len() / 2);
            }
        }
        // delete spans, longest first
        let mut spans = best.spans.clone();
        spans.sort_by_key(|(a, b)| std::cmp::Reverse(b - a));
        let mut i = 0;
        while i < spans.len() {
            let (a, b) = spans[i];
            if b <= best.choices.len() {
                let mut c = best.choices.clone();
                c.drain(a..b);
                if attempt!(c) {
                    spans = best.spans.clone();
                    spans.sort_by_key(|(a, b)| std::cmp::Reverse(b - a));
                    continue;
                }
            }
            i += 1;
        }
        // zero spans, then single values
        for (a, b) in best.spans.clone() {
            if b <= best.choices.len() && best.choices[a..b].iter().any(|x| *x != 0) {
                let mut c = best.choices.clone();
                c[a..b].iter_mut().for_each(|x| *x = 0);
                attempt!(c);
            }
        }
        let mut i = 0;
        while i < best.choices.len() {
            let v = best.choices[i];
            if v != 0 {
                let mut c = best.choices.clone();
                c[i] = 0;
                if !attempt!(c) {
                    // binary search towards zero
                    let (mut lo, mut hi) = (0u64, v);
                    while hi - lo > 1 {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.choices.clone();
                        if i >= c.len() {
                            break;
                        }
                        c[i] = mid;
                        if attempt!(c) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
        if best.choices == before {
            return (best, evals);
        }
    }
}

// ---------------------------------------------------------------- tiny JSON writer

pub fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
