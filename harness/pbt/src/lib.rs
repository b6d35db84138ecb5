//! A small property-based testing engine.
//!
//! Every random decision of a case is a `draw(n)` (0..n) recorded on a tape.  A failing case is
//! shrunk by editing its tape (deleting spans, deleting blocks, lowering values) and re-running it;
//! the shrunk tape is the replay file.  A run is a pure function of the code and VERIF_SEED.

use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

enum Mode {
    Gen(u64),
    Replay(Vec<u64>, usize),
}

pub struct Source {
    mode: Mode,
    pub tape: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    open: Vec<usize>,
    pub scale: u64,
}

impl Source {
    pub fn random(seed: u64) -> Self {
        Self { mode: Mode::Gen(seed), tape: vec![], spans: vec![], open: vec![], scale: 1 }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Self { mode: Mode::Replay(tape, 0), tape: vec![], spans: vec![], open: vec![], scale: 1 }
    }
    /// A value in 0..n (n >= 1); 0 is the simplest.
    pub fn draw(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let n = n.max(1);
        let v = match &mut self.mode {
            Mode::Gen(s) => {
                *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
                let r = mix(*s);
                ((r as u128 * n as u128) >> 64) as u64
            }
            Mode::Replay(t, p) => {
                let v = t.get(*p).copied().unwrap_or(0);
                *p += 1;
                if v >= n {
                    v % n
                } else {
                    v
                }
            }
        };
        self.tape.push(v);
        v
    }
    pub fn begin(&mut self) {
        self.open.push(self.tape.len());
    }
    pub fn end(&mut self) {
        if let Some(s) = self.open.pop() {
            let e = self.tape.len();
            if e > s {
                self.spans.push((s, e));
            }
        }
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    /// lo..=hi, shrinking towards lo
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.draw((hi - lo + 1) as u64) as usize
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = self.draw(den);
        v >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.us(xs.len())]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut v = self.draw(total.max(1));
        for (i, x) in w.iter().enumerate() {
            if v < *x as u64 {
                return i;
            }
            v -= *x as u64;
        }
        0
    }
    pub fn u64_any(&mut self) -> u64 {
        match self.draw(8) {
            0 => self.draw(4),
            1 => self.draw(256),
            2 => self.draw(65536),
            3 => 1u64 << self.draw(64),
            4 => (1u64 << self.draw(64)).wrapping_sub(1),
            5 => u64::MAX - self.draw(4),
            6 => self.draw(u32::MAX as u64),
            _ => {
                let a = self.draw(1 << 32);
                let b = self.draw(1 << 32);
                a << 32 | b
            }
        }
    }
    /// n bytes derived from a single draw (keeps tapes short); small draw => simple bytes
    pub fn blob(&mut self, n: usize) -> Vec<u8> {
        let s = self.draw(1 << 20);
        if s == 0 {
            return (0..n).map(|i| (i % 251) as u8).collect();
        }
        let mut x = mix(s);
        let mut out = Vec::with_capacity(n);
        while out.len() < n {
            x = mix(x.wrapping_add(1));
            for b in x.to_le_bytes() {
                if out.len() < n {
                    out.push(b);
                }
            }
        }
        out
    }
}

/// What a case reports.
#[derive(Default)]
pub struct Case {
    pub fail: Option<String>,
    pub labels: Vec<String>,
    /// hashes of the distinct non-trivial situations this case exercised
    pub nontrivial: Vec<u64>,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub evals: u64,
}

impl Case {
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            self.trace.push(f());
        }
    }
    pub fn fail(&mut self, s: impl Into<String>) {
        if self.fail.is_none() {
            self.fail = Some(s.into());
        }
    }
    pub fn failed(&self) -> bool {
        self.fail.is_some()
    }
    /// A violation that is not judged again when KNOWN_FINDINGS.txt lists it under this name.
    pub fn finding(&mut self, prop: &str, id: &str, what: impl Into<String>) {
        if known_ids().contains(&format!("property={prop} id={id}")) {
            HIT.lock().unwrap().insert(format!("property={prop} id={id}"));
            self.label(format!("known finding {id}"));
        } else {
            self.fail(what);
        }
    }
}

static HIT: std::sync::Mutex<std::collections::BTreeSet<String>> = std::sync::Mutex::new(std::collections::BTreeSet::new());
const KNOWN: &str = "/verif/KNOWN_FINDINGS.txt";
fn known_lines() -> &'static Vec<(String, String)> {
    static K: std::sync::OnceLock<Vec<(String, String)>> = std::sync::OnceLock::new();
    K.get_or_init(|| {
        std::fs::read_to_string(KNOWN)
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let l = l.strip_prefix("known: ")?;
                let mut w = l.splitn(3, ' ');
                Some((format!("{} {}", w.next()?, w.next()?), w.next()?.to_string()))
            })
            .collect()
    })
}
fn known_ids() -> Vec<String> {
    known_lines().iter().map(|k| k.0.clone()).collect()
}

pub type CaseFn = dyn Fn(&mut Source, &mut Case) + Sync;

pub struct Part<'a> {
    pub name: &'a str,
    pub f: Box<CaseFn>,
    pub cases: u64,
}

thread_local! {
    pub static QUIET: Cell<bool> = const { Cell::new(false) };
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    // keep freed memory in the process: cases allocate and free the same sizes all the time
    unsafe {
        libc::mallopt(libc::M_MMAP_THRESHOLD, 64 << 20);
        libc::mallopt(libc::M_TRIM_THRESHOLD, 512 << 20);
        libc::mallopt(libc::M_TOP_PAD, 16 << 20);
    }
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            let s = format!("{}", info);
            LAST_PANIC.with(|l| *l.borrow_mut() = s);
        } else {
            prev(info);
        }
    }));
}

/// Runs code under test, turning a panic into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}

fn run_one(f: &CaseFn, src: &mut Source, tracing: bool) -> Case {
    let mut c = Case { tracing, ..Default::default() };
    let old = QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(src, &mut c)));
    QUIET.with(|q| q.set(old));
    if r.is_err() {
        let m = LAST_PANIC.with(|l| l.borrow().clone());
        // a panic of the harness itself is an error of the check, never a violation
        eprintln!("HARNESS-ERROR: {m}");
        eprintln!("tape: {:?}", src.tape);
        std::process::exit(3);
    }
    c
}

pub struct Failure {
    pub part: String,
    pub index: u64,
    pub message: String,
    pub tape: Vec<u64>,
    pub trace: Vec<String>,
    pub shrink_runs: u64,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub cases: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

/// What the code under test is doing on this thread, for the watchdog.
/// 0: nothing; 1: running, may be rejected; 2: running an operation that has to succeed.
#[derive(Default)]
pub struct Phase {
    pub phase: AtomicU64,
    pub since: AtomicU64,
    pub clock: AtomicU64,
}
thread_local! {
    static PHASE: std::cell::RefCell<Option<Arc<Phase>>> = const { std::cell::RefCell::new(None) };
}
fn my_clock() -> i32 {
    let mut clk: libc::clockid_t = 0;
    unsafe {
        libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk);
    }
    clk
}
/// Marks the start/end of one bounded operation of the code under test.
pub fn set_phase(p: u64) {
    crash::PHASE_NOW.with(|x| x.set(p));
    PHASE.with(|x| {
        if let Some(ph) = x.borrow().as_ref() {
            if p != 0 {
                let clk = ph.clock.load(Ordering::Relaxed) as u32 as i32;
                ph.since.store(thread_cpu_ns(clk).unwrap_or(0), Ordering::SeqCst);
            }
            ph.phase.store(p, Ordering::SeqCst);
        }
    })
}
impl Phase {
    fn register() -> Arc<Phase> {
        let ph = Arc::new(Phase::default());
        ph.clock.store(my_clock() as u32 as u64, Ordering::SeqCst);
        PHASE.with(|x| *x.borrow_mut() = Some(ph.clone()));
        ph
    }
    /// Some(phase) if one operation has used more than `HANG_S` seconds of CPU
    fn hung(&self) -> Option<u64> {
        let p = self.phase.load(Ordering::SeqCst);
        if p == 0 {
            return None;
        }
        let since = self.since.load(Ordering::SeqCst);
        let now = thread_cpu_ns(self.clock.load(Ordering::SeqCst) as u32 as i32)?;
        if now.saturating_sub(since) > HANG_S * 1_000_000_000
            && self.phase.load(Ordering::SeqCst) == p
            && self.since.load(Ordering::SeqCst) == since
        {
            Some(p)
        } else {
            None
        }
    }
}
/// One operation normally takes microseconds; the on-chain budget is 1.4 M compute units.
const HANG_S: u64 = 15;

struct Slot {
    part: AtomicU64,
    index: AtomicU64,
    clock: AtomicU64,
    start_ns: AtomicU64,
    live: AtomicBool,
    phase: Mutex<Option<Arc<Phase>>>,
}

fn thread_cpu_ns(clk: i32) -> Option<u64> {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clk, &mut ts) != 0 {
            return None;
        }
        Some(ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64)
    }
}

pub struct Config {
    pub seed: u64,
    pub prop: String,
    pub threads: usize,
    /// CPU seconds one case may use before the run gives up as inconclusive
    pub case_cpu_s: u64,
    pub evidence_dir: String,
    pub tier: String,
    /// cases on which the code under test crashed or hung without having had to succeed
    pub skip: Vec<(String, u64)>,
}

pub fn explore(cfg: &Config, parts: &[Part]) -> (Stats, Option<Failure>) {
    let stats = Mutex::new(Stats::default());
    let pseed = hash_bytes(cfg.prop.as_bytes());
    for (pi, part) in parts.iter().enumerate() {
        let next = AtomicU64::new(0);
        let best: Mutex<Option<(u64, Vec<u64>, String)>> = Mutex::new(None);
        let best_idx = AtomicU64::new(u64::MAX);
        let done = AtomicBool::new(false);
        let running = AtomicUsize::new(cfg.threads);
        let slots: Arc<Vec<Slot>> = Arc::new(
            (0..cfg.threads)
                .map(|_| Slot {
                    part: AtomicU64::new(0),
                    index: AtomicU64::new(0),
                    clock: AtomicU64::new(0),
                    start_ns: AtomicU64::new(0),
                    live: AtomicBool::new(false),
                    phase: Mutex::new(None),
                })
                .collect(),
        );
        let nameh = hash_bytes(part.name.as_bytes());
        let case_seed = move |i: u64| mix(mix(cfg.seed ^ pseed).wrapping_add(nameh) ^ mix(i));
        std::thread::scope(|sc| {
            for t in 0..cfg.threads {
                let (next, best, best_idx, stats, slots, running, done) =
                    (&next, &best, &best_idx, &stats, slots.clone(), &running, &done);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let clk = my_clock();
                        *slots[t].phase.lock().unwrap() = Some(Phase::register());
                        slots[t].clock.store(clk as u32 as u64, Ordering::SeqCst);
                        let mut local = Stats::default();
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= part.cases || i > best_idx.load(Ordering::SeqCst) {
                                break;
                            }
                            slots[t].index.store(i, Ordering::SeqCst);
                            slots[t].part.store(pi as u64, Ordering::SeqCst);
                            slots[t]
                                .start_ns
                                .store(thread_cpu_ns(clk).unwrap_or(0), Ordering::SeqCst);
                            slots[t].live.store(true, Ordering::SeqCst);
                            if cfg.skip.iter().any(|x| x.0 == part.name && x.1 == i) {
                                slots[t].live.store(false, Ordering::SeqCst);
                                continue;
                            }
                            crash::enter(part.name, i, case_seed(i));
                            let mut src = Source::random(case_seed(i));
                            let want_trace = i < 2;
                            let c = run_one(&*part.f, &mut src, want_trace);
                            crash::leave();
                            slots[t].live.store(false, Ordering::SeqCst);
                            local.cases += 1;
                            local.evaluations += c.evals.max(1);
                            for l in c.labels {
                                *local.labels.entry(l).or_default() += 1;
                            }
                            if local.nontrivial.len() < 4_000_000 {
                                local.nontrivial.extend(c.nontrivial.iter());
                            }
                            if want_trace && local.samples.len() < 4 {
                                local.samples.push(format!("{} #{}: {}", part.name, i, c.trace.join(" | ")));
                            }
                            if let Some(m) = c.fail {
                                let mut b = best.lock().unwrap();
                                if b.as_ref().map_or(true, |x| i < x.0) {
                                    *b = Some((i, src.tape.clone(), m));
                                    best_idx.store(i, Ordering::SeqCst);
                                }
                            }
                        }
                        let mut s = stats.lock().unwrap();
                        s.cases += local.cases;
                        s.evaluations += local.evaluations;
                        s.nontrivial.extend(local.nontrivial);
                        for (k, v) in local.labels {
                            *s.labels.entry(k).or_default() += v;
                        }
                        s.samples.extend(local.samples);
                        if running.fetch_sub(1, Ordering::SeqCst) == 1 {
                            done.store(true, Ordering::SeqCst);
                        }
                    })
                    .unwrap();
            }
            // watchdog: a case that burns CPU for minutes is inconclusive, never a violation
            let slots = slots.clone();
            let done = &done;
            sc.spawn(move || {
                while !done.load(Ordering::SeqCst) {
                    std::thread::sleep(std::time::Duration::from_millis(20));
                    for s in slots.iter() {
                        if !s.live.load(Ordering::SeqCst) {
                            continue;
                        }
                        let start = s.start_ns.load(Ordering::SeqCst);
                        let hung = s.phase.lock().unwrap().as_ref().and_then(|p| p.hung());
                        if let Some(ph) = hung {
                            let i = s.index.load(Ordering::SeqCst);
                            crash::note(part.name, i, case_seed(i), ph, "does not terminate (it exhausts any compute budget)");
                        }
                        if let Some(now) = thread_cpu_ns(s.clock.load(Ordering::SeqCst) as u32 as i32) {
                            if s.live.load(Ordering::SeqCst)
                                && s.start_ns.load(Ordering::SeqCst) == start
                                && now.saturating_sub(start) > cfg.case_cpu_s * 1_000_000_000
                            {
                                eprintln!(
                                    "INCONCLUSIVE: case {} of part {} used more than {} s of CPU",
                                    s.index.load(Ordering::SeqCst),
                                    part.name,
                                    cfg.case_cpu_s
                                );
                                std::process::exit(4);
                            }
                        }
                    }
                }
            });
        });
        let b = best.into_inner().unwrap();
        if let Some((i, tape, msg)) = b {
            let path = format!("{}/{}.replay.json", cfg.evidence_dir, cfg.prop);
            let pre = Failure { part: part.name.to_string(), index: i, message: msg.clone(), tape: tape.clone(), trace: vec![], shrink_runs: 0 };
            std::fs::write(&path, replay_text(&cfg.prop, cfg.seed, &pre)).expect("write replay");
            crash::shrinking(format!("part {} case {i} (not shrunk: a smaller candidate crashes): {msg}\nVIOLATION property={} replay={path}\n", part.name, cfg.prop));
            let (tape, msg, trace, runs) = shrink(&*part.f, tape, msg);
            crash::shrunk();
            let mut s = stats.into_inner().unwrap();
            s.samples.sort();
            return (
                s,
                Some(Failure { part: part.name.to_string(), index: i, message: msg, tape, trace, shrink_runs: runs }),
            );
        }
    }
    let mut s = stats.into_inner().unwrap();
    s.samples.sort();
    s.samples.truncate(8);
    (s, None)
}

/// Writes the verdict for a case that kills or hangs the process.
fn crash_report(prop: &str, tier: &str, seed: u64, dir: &str, n: &crash::Note) -> i32 {
    let path = format!("{dir}/{prop}.replay.json");
    let msg = format!("an operation of the code under test {}", n.what);
    std::fs::create_dir_all(dir).ok();
    std::fs::write(
        &path,
        format!(
            "{{\n \"property\": {},\n \"part\": \"{}\",\n \"seed\": {seed},\n \"case\": {},\n \"gen_seed\": {},\n \"message\": {}\n}}\n",
            jstr(prop), n.part, n.index, n.gen_seed, jstr(&msg)
        ),
    )
    .ok();
    let e = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": 0, \"rule\": \"stopped at a case that does not end normally\", \"samples\": [{}]}},\n \"wall_s\": 0,\n \"violations\": 1\n}}\n",
        jstr(prop), jstr(tier), n.index + 1, jstr(&msg)
    );
    std::fs::write(format!("{dir}/{prop}.json"), e).ok();
    println!("part {} case {}: {msg}", n.part, n.index);
    println!("VIOLATION property={prop} replay={path}");
    1
}

pub fn replay(f: &CaseFn, tape: Vec<u64>) -> Case {
    let mut src = Source::replay(tape);
    run_one(f, &mut src, true)
}

/// Shrinks a failing tape; returns the smallest still-failing one.
pub fn shrink(f: &CaseFn, tape: Vec<u64>, msg: String) -> (Vec<u64>, String, Vec<String>, u64) {
    let shared: Arc<Mutex<(Vec<u64>, String)>> = Arc::new(Mutex::new((tape.clone(), msg.clone())));
    let result: Arc<Mutex<Option<(Vec<u64>, String, Vec<String>, u64)>>> = Arc::new(Mutex::new(None));
    let phase: Arc<Mutex<Option<Arc<Phase>>>> = Arc::new(Mutex::new(None));
    // the shrinking thread may be abandoned if a candidate hangs, so it cannot be scoped
    let f: &'static CaseFn = unsafe { std::mem::transmute(f) };
    let (s2, r2, p2) = (shared.clone(), result.clone(), phase.clone());
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            *p2.lock().unwrap() = Some(Phase::register());
            let r = shrink_inner(f, tape, msg, &s2);
            *r2.lock().unwrap() = Some(r);
        })
        .unwrap();
    loop {
        std::thread::sleep(std::time::Duration::from_millis(10));
        if let Some(r) = result.lock().unwrap().take() {
            return r;
        }
        let hung = phase.lock().unwrap().as_ref().and_then(|p| p.hung());
        if hung.is_some() {
            let (t, m) = shared.lock().unwrap().clone();
            return (t, m, vec!["(no trace: shrinking ran into an input on which the code does not terminate)".into()], 0);
        }
    }
}

fn shrink_inner(f: &CaseFn, tape: Vec<u64>, msg: String, shared: &Mutex<(Vec<u64>, String)>) -> (Vec<u64>, String, Vec<String>, u64) {
    let t0 = Instant::now();
    let mut runs = 0u64;
    let mut best = tape;
    let mut best_msg = msg;
    let mut spans: Vec<(usize, usize)> = vec![];
    let ok = |r: u64| r < 20_000 && t0.elapsed().as_secs() < 60;
    let try_tape = |cand: Vec<u64>, best: &mut Vec<u64>, spans: &mut Vec<(usize, usize)>, runs: &mut u64, bm: &mut String| -> bool {
        *runs += 1;
        let mut s = Source::replay(cand);
        let c = run_one(f, &mut s, false);
        if let Some(m) = c.fail {
            let better = s.tape.len() < best.len() || (s.tape.len() == best.len() && s.tape <= *best);
            if better || best.is_empty() {
                *best = s.tape;
                *spans = s.spans;
                *bm = m;
                *shared.lock().unwrap() = (best.clone(), bm.clone());
                return true;
            }
        }
        false
    };
    let b0 = best.clone();
    try_tape(b0, &mut best, &mut spans, &mut runs, &mut best_msg);
    loop {
        let before = best.clone();
        // 1. delete spans, last first (steps of a history)
        let mut i = spans.len();
        while i > 0 && ok(runs) {
            i -= 1;
            if i >= spans.len() {
                continue;
            }
            let (s, e) = spans[i];
            if e > best.len() {
                continue;
            }
            let mut c = best.clone();
            c.drain(s..e);
            try_tape(c, &mut best, &mut spans, &mut runs, &mut best_msg);
        }
        // 2. delete blocks
        let mut size = 32;
        while size >= 1 && ok(runs) {
            let mut p = best.len();
            while p > 0 && ok(runs) {
                p = p.saturating_sub(size);
                if p + size > best.len() {
                    continue;
                }
                let mut c = best.clone();
                c.drain(p..p + size);
                try_tape(c, &mut best, &mut spans, &mut runs, &mut best_msg);
            }
            size /= 2;
        }
        // 3. lower values
        let mut p = 0;
        while p < best.len() && ok(runs) {
            if best[p] > 0 {
                let mut c = best.clone();
                c[p] = 0;
                if !try_tape(c, &mut best, &mut spans, &mut runs, &mut best_msg) {
                    let (mut lo, mut hi) = (0u64, best.get(p).copied().unwrap_or(0));
                    while lo + 1 < hi && ok(runs) {
                        let mid = lo + (hi - lo) / 2;
                        if p >= best.len() {
                            break;
                        }
                        let mut c = best.clone();
                        c[p] = mid;
                        if try_tape(c, &mut best, &mut spans, &mut runs, &mut best_msg) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            p += 1;
        }
        if best == before || !ok(runs) {
            break;
        }
    }
    let c = {
        let mut s = Source::replay(best.clone());
        run_one(f, &mut s, true)
    };
    (best, best_msg, c.trace, runs)
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Meta<'a> {
    pub rule: &'a str,
    pub assumptions: &'a [&'a str],
}

/// Runs a property's parts, writes the evidence file, prints the verdict, returns the exit code.
pub fn main_check(prop: &str, parts: Vec<Part>, meta: Meta, evidence_dir: &str) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let mut args = std::env::args().skip(2);
    if let (Some(a), Some(file)) = (args.next(), args.next()) {
        if a == "--replay" {
            let text = std::fs::read_to_string(&file).expect("replay file");
            let part = field(&text, "\"part\": \"").unwrap_or_default();
            let tape: Vec<u64> = text
                .split("\"tape\": [")
                .nth(1)
                .and_then(|s| s.split(']').next())
                .unwrap_or("")
                .split(',')
                .filter_map(|s| s.trim().parse().ok())
                .collect();
            let p = parts.iter().find(|p| p.name == part).expect("unknown part");
            let gs = text
                .split("\"gen_seed\": ")
                .nth(1)
                .and_then(|s| s.split(',').next())
                .and_then(|s| s.trim().parse::<u64>().ok());
            let c = if let Some(g) = gs {
                println!("this input is recorded because the code does not terminate on it");
                let mut src = Source::random(g);
                run_one(&*p.f, &mut src, true)
            } else {
                replay(&*p.f, tape)
            };
            for l in &c.trace {
                println!("  {l}");
            }
            return match c.fail {
                Some(m) => {
                    println!("{m}");
                    println!("VIOLATION property={prop} replay={file}");
                    1
                }
                None => {
                    println!("replay: property held");
                    0
                }
            };
        }
    }
    let t0 = Instant::now();
    if std::env::var("VP_CHILD").is_err() {
        return supervise(prop, tier, seed, evidence_dir);
    }
    crash::install();
    let skip = std::env::var("VP_SKIP")
        .unwrap_or_default()
        .split(',')
        .filter_map(|x| x.rsplit_once(':').and_then(|(a, b)| Some((a.to_string(), b.parse().ok()?))))
        .collect();
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16);
    let cfg = Config { seed, prop: prop.to_string(), threads, case_cpu_s: 200, evidence_dir: evidence_dir.to_string(), tier: tier.to_string(), skip };
    std::fs::create_dir_all(evidence_dir).ok();
    let (stats, fail) = explore(&cfg, &parts);
    let mut code = 0;
    for (k, text) in known_lines() {
        if HIT.lock().unwrap().contains(k) {
            println!("KNOWN-FINDING: {} {text}", k.split(" id=").next().unwrap_or(k));
        }
    }
    if let Some(f) = &fail {
        code = 1;
        let path = format!("{evidence_dir}/{prop}.replay.json");
        let s = replay_text(prop, seed, f);
        std::fs::write(&path, s).expect("write replay");
        println!("part {} case {} (shrunk in {} runs):", f.part, f.index, f.shrink_runs);
        for l in &f.trace {
            println!("  {l}");
        }
        println!("{}", f.message);
        println!("VIOLATION property={prop} replay={path}");
    }
    let mut e = String::from("{\n");
    e += &format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n", jstr(prop), jstr(tier));
    e += " \"coverage\": {\n";
    e += &format!("  \"evaluations\": {},\n  \"cases\": {},\n  \"distinct_nontrivial\": {},\n", stats.evaluations, stats.cases, stats.nontrivial.len());
    e += &format!("  \"rule\": {},\n", jstr(meta.rule));
    e += &format!(
        "  \"labels\": {{{}}},\n",
        stats.labels.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", ")
    );
    e += &format!(
        "  \"samples\": [\n   {}\n  ]\n }},\n",
        stats.samples.iter().map(|s| jstr(&s.chars().take(3000).collect::<String>())).collect::<Vec<_>>().join(",\n   ")
    );
    e += &format!(
        " \"assumptions\": [{}],\n",
        meta.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")
    );
    e += &format!(" \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), fail.is_some() as u32);
    std::fs::write(format!("{evidence_dir}/{prop}.json"), e).expect("write evidence");
    println!(
        "{prop}: {} cases, {} evaluations, {} distinct non-trivial, {:.1}s: {}",
        stats.cases,
        stats.evaluations,
        stats.nontrivial.len(),
        t0.elapsed().as_secs_f64(),
        if fail.is_some() { "VIOLATED" } else { "held" }
    );
    code
}

fn field(text: &str, key: &str) -> Option<String> {
    text.split(key).nth(1).and_then(|s| s.split('"').next()).map(|s| s.to_string())
}

fn replay_text(prop: &str, seed: u64, f: &Failure) -> String {
    let mut s = String::from("{\n");
    s += &format!(" \"property\": {},\n \"part\": \"{}\",\n \"seed\": {seed},\n \"case\": {},\n", jstr(prop), f.part, f.index);
    s += &format!(" \"message\": {},\n", jstr(&f.message));
    s += &format!(
            " \"tape\": [{}],\n",
            f.tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")
        );
    s += &format!(
            " \"trace\": [\n  {}\n ]\n}}\n",
            f.trace.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",\n  ")
        );
    s
}

/// Runs the exploration in a child process, so that a crash of the code under test ends in a verdict.
fn supervise(prop: &str, tier: &str, seed: u64, dir: &str) -> i32 {
    let t0 = Instant::now();
    let mut skip: Vec<String> = vec![];
    loop {
        let st = std::process::Command::new(std::env::current_exe().expect("own path"))
            .args(std::env::args().skip(1))
            .env("VP_CHILD", "1")
            .env("VP_SKIP", skip.join(","))
            .stderr(std::process::Stdio::piped())
            .spawn()
            .and_then(|c| c.wait_with_output())
            .expect("child");
        let err = String::from_utf8_lossy(&st.stderr).into_owned();
        let code = st.status.code().unwrap_or(5);
        let Some(n) = err.lines().find_map(crash::Note::parse).filter(|_| code == crash::EXIT) else {
            eprint!("{err}");
            if code == 0 && !skip.is_empty() {
                eprintln!("INCONCLUSIVE: the code under test crashes or hangs on {}", skip.join(", "));
                return 4;
            }
            return code;
        };
        if n.phase != 1 {
            return crash_report(prop, tier, seed, dir, &n);
        }
        // it did not have to succeed there; look for a violation elsewhere
        skip.push(format!("{}:{}", n.part, n.index));
        if skip.len() > 25 || t0.elapsed().as_secs() > 400 {
            eprintln!("INCONCLUSIVE: the code under test crashes or hangs on {}", skip.join(", "));
            return 4;
        }
    }
}

pub mod crash {
    //! Fatal signals and hangs in the code under test.
    use std::cell::Cell;
    use std::sync::Mutex;
    pub const EXIT: i32 = 50;
    thread_local! {
        static CUR: Cell<(&'static str, u64, u64)> = const { Cell::new(("", 0, 0)) };
        pub static PHASE_NOW: Cell<u64> = const { Cell::new(0) };
    }
    static FALLBACK: std::sync::atomic::AtomicPtr<String> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
    static ONCE: Mutex<()> = Mutex::new(());

    pub struct Note {
        pub part: String,
        pub index: u64,
        pub gen_seed: u64,
        pub phase: u64,
        pub what: String,
    }
    impl Note {
        pub fn parse(l: &str) -> Option<Note> {
            let mut f = l.strip_prefix("CASE-DIED\t")?.split('\t');
            Some(Note { part: f.next()?.into(), index: f.next()?.parse().ok()?, gen_seed: f.next()?.parse().ok()?, phase: f.next()?.parse().ok()?, what: f.next()?.into() })
        }
    }
    pub fn enter(part: &str, index: u64, seed: u64) {
        let p: &'static str = unsafe { std::mem::transmute(part) };
        CUR.with(|c| c.set((p, index, seed)));
        PHASE_NOW.with(|x| x.set(0));
    }
    pub fn leave() {
        CUR.with(|c| c.set(("", 0, 0)));
    }
    pub fn shrinking(line: String) {
        FALLBACK.store(Box::into_raw(Box::new(line)), std::sync::atomic::Ordering::SeqCst);
    }
    pub fn shrunk() {
        FALLBACK.store(std::ptr::null_mut(), std::sync::atomic::Ordering::SeqCst);
    }
    /// from the watchdog thread
    pub fn note(part: &str, index: u64, seed: u64, phase: u64, what: &str) -> ! {
        let _g = ONCE.lock();
        eprintln!("CASE-DIED\t{part}\t{index}\t{seed}\t{phase}\t{what}");
        unsafe { libc::_exit(EXIT) }
    }
    fn put(fd: i32, b: &[u8]) {
        unsafe {
            libc::write(fd, b.as_ptr() as *const _, b.len());
        }
    }
    fn num(mut n: u64) {
        let mut b = [0u8; 20];
        let mut i = 20;
        loop {
            i -= 1;
            b[i] = b'0' + (n % 10) as u8;
            n /= 10;
            if n == 0 {
                break;
            }
        }
        put(2, &b[i..]);
    }
    extern "C" fn handler(sig: i32) {
        let f = FALLBACK.load(std::sync::atomic::Ordering::SeqCst);
        if !f.is_null() {
            put(1, unsafe { (*f).as_bytes() });
            unsafe { libc::_exit(1) }
        }
        let (p, i, s) = CUR.with(|c| c.get());
        if p.is_empty() {
            put(2, b"HARNESS-ERROR: fatal signal outside a case\n");
            unsafe { libc::_exit(3) }
        }
        put(2, b"\nCASE-DIED\t");
        put(2, p.as_bytes());
        put(2, b"\t");
        num(i);
        put(2, b"\t");
        num(s);
        put(2, b"\t");
        num(PHASE_NOW.with(|x| x.get()));
        put(2, match sig {
            libc::SIGSEGV => &b"\tcrashes (SIGSEGV)\n"[..],
            libc::SIGBUS => &b"\tcrashes (SIGBUS)\n"[..],
            libc::SIGABRT => &b"\taborts\n"[..],
            _ => &b"\tcrashes\n"[..],
        });
        unsafe { libc::_exit(EXIT) }
    }
    pub fn install() {
        for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
            unsafe {
                let mut sa: libc::sigaction = std::mem::zeroed();
                sa.sa_sigaction = handler as usize;
                sa.sa_flags = libc::SA_ONSTACK;
                libc::sigaction(sig, &sa, std::ptr::null_mut());
            }
        }
    }
}
