//! A small property-based testing engine.
//!
//! A case is a pure function of a finite sequence of integer choices (`Src`). Random generation draws the choices
//! from a PRNG seeded by (VERIF_SEED, property, case index); shrinking edits the recorded choice sequence and runs the
//! same function again, so every generator shrinks and replays for free. Choice 0 is always the simplest alternative.

use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn hash64(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut r = Rng::new(h);
    r.next()
}

/// Recorded choices, in separate streams (program structure, trivia, configuration, rest) so that shrinking one does
/// not misalign the others.
pub const STREAMS: usize = 4;
pub type Choices = [Vec<u64>; STREAMS];

/// Source of choices.
pub struct Src {
    rng: Option<Rng>,
    pub choices: Choices,
    pos: [usize; STREAMS],
    cur: usize,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), choices: Default::default(), pos: [0; STREAMS], cur: 0 }
    }
    pub fn replay(choices: &Choices) -> Self {
        Src { rng: None, choices: choices.clone(), pos: [0; STREAMS], cur: 0 }
    }
    /// draw from another stream inside `f`
    pub fn stream<T>(&mut self, k: usize, f: impl FnOnce(&mut Src) -> T) -> T {
        let old = self.cur;
        self.cur = k;
        let r = f(self);
        self.cur = old;
        r
    }
    /// uniform in 0..n
    pub fn draw(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let k = self.cur;
        let v = match &mut self.rng {
            Some(r) => {
                let v = r.next() % n;
                self.choices[k].push(v);
                v
            }
            None => {
                let v = self.choices[k].get(self.pos[k]).copied().unwrap_or(0);
                if v >= n {
                    n - 1
                } else {
                    v
                }
            }
        };
        self.pos[k] += 1;
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den; the simplest value is `false`
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn pick<'a, T: ?Sized>(&mut self, xs: &[&'a T]) -> &'a T {
        xs[self.below(xs.len())]
    }
    pub fn pick_c<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())].clone()
    }
    /// index drawn with the given weights
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.draw(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= *x;
        }
        unreachable!()
    }
    pub fn used(&self) -> [usize; STREAMS] {
        self.pos
    }
}

#[derive(Debug, Clone)]
pub enum Outcome {
    /// checked; the flag says whether the case was non-trivial by the property's stated rule
    Pass(bool),
    /// outside the property's domain (counted, never a failure)
    Skip(&'static str),
    Fail(String),
}

/// What one case reports about itself.
#[derive(Default)]
pub struct Ctx {
    pub labels: Vec<&'static str>,
    /// sizes of what was generated
    pub sizes: Vec<(&'static str, usize)>,
    /// textual form of the case (used for distinctness, samples and replay files)
    pub desc: String,
    pub worker: usize,
    /// how often the code under test was run in this case
    pub runs: u64,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l)
        }
    }
}

pub type PropFn = fn(&mut Src, &mut Ctx) -> Outcome;

pub struct Stats {
    pub evaluations: u64,
    pub runs: u64,
    pub skipped: BTreeMap<&'static str, u64>,
    pub labels: BTreeMap<&'static str, u64>,
    /// the largest, and how many cases had at least 8, 32, 128
    pub sizes: BTreeMap<&'static str, [u64; 4]>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<(u64, String)>,
    pub nontrivial: u64,
}

pub struct Failure {
    pub index: u64,
    pub msg: String,
    pub desc: String,
    pub choices: Choices,
    pub shrink_steps: u64,
}

pub struct RunResult {
    pub stats: Stats,
    pub failure: Option<Failure>,
    pub harness_error: Option<String>,
}

static WATCH: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
/// index of the case each worker runs
static CASE: [AtomicU64; 64] = [const { AtomicU64::new(u64::MAX) }; 64];
static DONE: AtomicBool = AtomicBool::new(false);

/// half seconds the watchdog has been awake for (a machine that was paused does not make a case late)
static TICKS: AtomicU64 = AtomicU64::new(1);

/// Calls `hang` with the index of a case that does not end (cases take milliseconds).
pub fn start_watchdog(limit_s: u64, hang: impl Fn(u64) + Send + 'static) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = TICKS.fetch_add(1, Ordering::Relaxed);
        for (w, c) in WATCH.iter().zip(CASE.iter()) {
            let t = w.load(Ordering::Relaxed);
            if t != 0 && now > t + limit_s * 2 && !DONE.load(Ordering::Relaxed) {
                hang(c.load(Ordering::Relaxed));
            }
        }
    });
}

fn run_case(f: PropFn, src: &mut Src, worker: usize) -> Result<(Outcome, Ctx), String> {
    let mut ctx = Ctx { worker, ..Ctx::default() };
    WATCH[worker].store(TICKS.load(Ordering::Relaxed), Ordering::Relaxed);
    let r = catch_unwind(AssertUnwindSafe(|| f(src, &mut ctx)));
    WATCH[worker].store(0, Ordering::Relaxed);
    match r {
        Ok(o) => Ok((o, ctx)),
        Err(e) => Err(panic_msg(&e)),
    }
}

pub fn panic_msg(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

pub fn case_seed(seed: u64, prop: &str, index: u64) -> u64 {
    hash64(format!("{}/{}/{}", seed, prop, index).as_bytes())
}

pub fn run(prop: &str, f: PropFn, seed: u64, cases: u64, workers: usize, budget: Option<Duration>) -> RunResult {
    let next = AtomicU64::new(0);
    let best_fail = AtomicU64::new(u64::MAX);
    let fails: Mutex<Vec<(u64, String, String, Choices)>> = Mutex::new(Vec::new());
    let herr: Mutex<Option<String>> = Mutex::new(None);
    let stats = Mutex::new(Stats {
        evaluations: 0,
        runs: 0,
        skipped: BTreeMap::new(),
        labels: BTreeMap::new(),
        sizes: BTreeMap::new(),
        distinct: HashSet::new(),
        samples: Vec::new(),
        nontrivial: 0,
    });
    let started = Instant::now();
    let show_slow = std::env::var("VERIF_SLOW").is_ok();
    let alive = AtomicUsize::new(workers);

    std::thread::scope(|sc| {
        for w in 0..workers {
            let (next, best_fail, fails, herr, stats, alive) = (&next, &best_fail, &fails, &herr, &stats, &alive);
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(sc, move || {
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= cases || i > best_fail.load(Ordering::SeqCst) {
                            break;
                        }
                        if let Some(b) = budget {
                            if started.elapsed() > b {
                                break;
                            }
                        }
                        let mut src = Src::random(case_seed(seed, prop, i));
                        CASE[w].store(i, Ordering::Relaxed);
                        let t0 = Instant::now();
                        let rc = run_case(f, &mut src, w);
                        if show_slow && t0.elapsed().as_millis() > 1000 {
                            let d = rc.as_ref().map(|x| x.1.desc.clone()).unwrap_or_default();
                            eprintln!("slow: case {} {:?}\n{}", i, t0.elapsed(), d);
                        }
                        match rc {
                            Err(m) => {
                                *herr.lock().unwrap() = Some(format!("harness panic in case {}: {}", i, m));
                                best_fail.fetch_min(0, Ordering::SeqCst);
                                break;
                            }
                            Ok((o, ctx)) => {
                                let mut st = stats.lock().unwrap();
                                st.evaluations += 1;
                                st.runs += ctx.runs;
                                match o {
                                    Outcome::Pass(nt) => {
                                        for l in &ctx.labels {
                                            *st.labels.entry(l).or_insert(0) += 1;
                                        }
                                        for &(what, n) in &ctx.sizes {
                                            let e = st.sizes.entry(what).or_insert([0; 4]);
                                            e[0] = e[0].max(n as u64);
                                            e[1] += (n >= 8) as u64;
                                            e[2] += (n >= 32) as u64;
                                            e[3] += (n >= 128) as u64;
                                        }
                                        if nt {
                                            st.nontrivial += 1;
                                            let h = hash64(ctx.desc.as_bytes());
                                            if st.distinct.insert(h) && (i < 400 || st.samples.is_empty()) {
                                                st.samples.push((i, ctx.desc.clone()));
                                            }
                                        }
                                    }
                                    Outcome::Skip(r) => *st.skipped.entry(r).or_insert(0) += 1,
                                    Outcome::Fail(m) => {
                                        best_fail.fetch_min(i, Ordering::SeqCst);
                                        fails.lock().unwrap().push((i, m, ctx.desc.clone(), src.choices.clone()));
                                    }
                                }
                            }
                        }
                    }
                    alive.fetch_sub(1, Ordering::SeqCst);
                })
                .unwrap();
        }
    });

    let mut stats = stats.into_inner().unwrap();
    stats.samples.sort();
    let harness_error = herr.into_inner().unwrap();
    let mut fails = fails.into_inner().unwrap();
    fails.sort_by_key(|x| x.0);
    let failure = fails.into_iter().next().map(|(index, msg, desc, choices)| {
        // shrink on a thread with the same big stack
        std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(sc, move || shrink(f, index, msg, desc, choices))
                .unwrap()
                .join()
                .unwrap()
        })
    });
    RunResult { stats, failure, harness_error }
}

pub fn done() {
    DONE.store(true, Ordering::Relaxed);
}

struct Best {
    c: Choices,
    msg: String,
    desc: String,
    steps: u64,
}

fn total(c: &Choices) -> usize {
    c.iter().map(|x| x.len()).sum()
}

fn shrink(f: PropFn, index: u64, msg: String, desc: String, choices: Choices) -> Failure {
    let start = Instant::now();
    let limit = Duration::from_secs(30);
    let mut best = Best { c: choices, msg, desc, steps: 0 };

    let attempt = |k: usize, cand: Vec<u64>, best: &mut Best| -> bool {
        if start.elapsed() > limit {
            return false;
        }
        best.steps += 1;
        let mut full = best.c.clone();
        full[k] = cand;
        let mut src = Src::replay(&full);
        if let Ok((Outcome::Fail(m), ctx)) = run_case(f, &mut src, 0) {
            let used = src.used();
            for (x, u) in full.iter_mut().zip(used) {
                x.truncate(u);
                while x.last() == Some(&0) {
                    x.pop();
                }
            }
            let (a, b) = (total(&full), total(&best.c));
            if a < b || (a == b && full < best.c) {
                best.c = full;
                best.msg = m;
                best.desc = ctx.desc;
                return true;
            }
        }
        false
    };

    loop {
        let mut improved = false;
        for k in [2, 1, 3, 0] {
            // delete chunks
            let mut size = (best.c[k].len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < best.c[k].len() {
                    let mut cand = best.c[k].clone();
                    let e = (i + size).min(cand.len());
                    cand.drain(i..e);
                    if attempt(k, cand, &mut best) {
                        improved = true;
                    } else {
                        i += size;
                    }
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
            // zero chunks
            let mut size = (best.c[k].len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < best.c[k].len() {
                    let e = (i + size).min(best.c[k].len());
                    if best.c[k][i..e].iter().any(|x| *x != 0) {
                        let mut cand = best.c[k].clone();
                        cand[i..e].iter_mut().for_each(|x| *x = 0);
                        if attempt(k, cand, &mut best) {
                            improved = true;
                        }
                    }
                    i += size;
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
            // lower single values
            let mut i = 0;
            while i < best.c[k].len() {
                while i < best.c[k].len() && best.c[k][i] > 0 {
                    let v = best.c[k][i];
                    let mut ok = false;
                    for nv in [v / 2, v - 1] {
                        let mut cand = best.c[k].clone();
                        cand[i] = nv;
                        if attempt(k, cand, &mut best) {
                            ok = true;
                            improved = true;
                            break;
                        }
                    }
                    if !ok {
                        break;
                    }
                }
                i += 1;
            }
            // lower one value and delete some of what follows it (a list length and its elements)
            let mut i = 0;
            while i < best.c[k].len() {
                if best.c[k][i] > 0 {
                    'del: for n in [1usize, 2, 3, 4, 5, 6, 8, 10, 12, 16, 24, 32] {
                        for nv in [best.c[k][i] - 1, 0] {
                            if i + 1 + n <= best.c[k].len() {
                                let mut cand = best.c[k].clone();
                                cand[i] = nv;
                                cand.drain(i + 1..i + 1 + n);
                                if attempt(k, cand, &mut best) {
                                    improved = true;
                                    break 'del;
                                }
                            }
                        }
                    }
                }
                i += 1;
            }
        }
        if !improved || start.elapsed() > limit {
            break;
        }
    }
    Failure { index, msg: best.msg, desc: best.desc, choices: best.c, shrink_steps: best.steps }
}

/// runs the case with these choices, or the one with this seed
pub fn replay(f: PropFn, choices: Result<&Choices, u64>) -> Result<(Outcome, Ctx), String> {
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(512 << 20)
            .spawn_scoped(sc, move || {
                let mut src = match choices {
                    Ok(c) => Src::replay(c),
                    Err(seed) => Src::random(seed),
                };
                run_case(f, &mut src, 0)
            })
            .unwrap()
            .join()
            .unwrap()
    })
}
