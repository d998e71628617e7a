//! A small property-based testing engine in the style of Hypothesis.
//!
//! Every generator draws from a sequence of bounded choices (`Src`). A case is a pure
//! function of (code under test, size, choices), so a failing case is shrunk by editing
//! the choice sequence and is replayed from the recorded one.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------- choices

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for p in parts {
        let mut r = Rng::new(h ^ p);
        h = r.next();
    }
    h
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    Rng::new(h).next()
}

pub struct Src {
    rng: Option<Rng>,
    data: Vec<u64>,
    pos: usize,
    pub rec: Vec<u64>,
    /// Grows from 0 to 100 over a run: generators may scale with it.
    pub size: u64,
}

pub const MAX_CHOICES: usize = 200_000;

impl Src {
    pub fn random(seed: u64, size: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), data: vec![], pos: 0, rec: vec![], size }
    }
    pub fn replay(data: Vec<u64>, size: u64) -> Self {
        Src { rng: None, data, pos: 0, rec: vec![], size }
    }
    /// A number in 0..n; 0 is the simplest.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.rng {
            Some(r) if self.rec.len() < MAX_CHOICES => r.next() % n,
            Some(_) => 0,
            None => {
                let v = self.data.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(n - 1)
            }
        };
        self.rec.push(v);
        v
    }
    pub fn any(&mut self) -> u64 {
        let v = match &mut self.rng {
            Some(r) => r.next(),
            None => {
                let v = self.data.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v
            }
        };
        self.rec.push(v);
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range; the low end is the simplest.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        debug_assert!(lo <= hi);
        let span = (hi as i128 - lo as i128 + 1) as u128;
        if span > u64::MAX as u128 {
            return self.any() as i64;
        }
        (lo as i128 + self.below(span as u64) as i128) as i64
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as i64, hi as i64) as usize
    }
    /// True with probability num/den; false is the simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.idx(xs.len())]
    }
    /// An index drawn with the given weights; index 0 is the simplest.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    /// Now and then a length near one at which an implementation may change its ways.
    pub fn big(&mut self) -> Option<usize> {
        if !self.chance(1, 128) {
            return None;
        }
        let n = *self.pick(&[16usize, 32, 64, 100, 128, 256, 300, 512, 1000, 1024]);
        Some(n + self.idx(3) - 1)
    }
    /// A length in 0..=max that is small most of the time.
    pub fn len(&mut self, max: usize) -> usize {
        let cap = match self.below(8) {
            0..=3 => 4,
            4..=5 => 8,
            6 => 24,
            _ => max,
        };
        self.below(cap.min(max) as u64 + 1) as usize
    }
}

// ---------------------------------------------------------------- cases

#[derive(Debug, Clone)]
pub enum Fail {
    /// The generated case is outside the domain of the property.
    Discard,
    Violation { sig: String, msg: String },
}
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::engine::Fail::Violation { sig: ::std::string::String::new(), msg: format!($($t)*) }) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { $crate::fail!($($t)*) } };
}
pub fn discard<T>() -> Result<T, Fail> {
    Err(Fail::Discard)
}

#[derive(Default)]
pub struct Cx {
    pub case: String,
    pub nontrivial: bool,
    pub labels: Vec<String>,
}
static DRAW_ONLY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn set_draw_only(b: bool) {
    DRAW_ONLY.store(b, std::sync::atomic::Ordering::SeqCst);
}

impl Cx {
    /// Generation is over and the code under test runs from here on.
    pub fn go(&mut self, s: impl Into<String>) -> R {
        self.case = s.into();
        if DRAW_ONLY.load(std::sync::atomic::Ordering::SeqCst) {
            return Err(Fail::Discard);
        }
        Ok(())
    }
    /// The readable form of the case; two cases with the same text count once.
    pub fn case(&mut self, s: impl Into<String>) {
        self.case = s.into();
    }
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
    pub fn nontrivial(&mut self, b: bool) {
        self.nontrivial |= b;
    }
}

pub type CaseFn = fn(&mut Src, &mut Cx) -> R;

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub subs: &'static [Sub],
    /// CPU seconds one case may take before it counts as not terminating.
    /// `Some` only for properties that promise an answer; else a hang is an error.
    pub cpu_limit: Option<u64>,
    pub assumptions: &'static [&'static str],
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

pub fn last_panic() -> (String, String) {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

/// True if a panic location is in the harness itself and not in the code under test.
pub fn is_harness_loc(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/harness/src/")
}

pub struct HarnessBug(pub String);

/// Run a closure of the code under test; a panic becomes `Err(message)`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            let (msg, loc) = last_panic();
            if is_harness_loc(&loc) || p.is::<HarnessBug>() {
                LAST_PANIC.with(|q| *q.borrow_mut() = Some((msg, loc)));
                std::panic::resume_unwind(p);
            }
            Err(format!("panic: {} at {}", msg, loc))
        }
    }
}

/// Run one case. `Err` is a defect of the harness.
pub fn run_case(f: CaseFn, src: &mut Src) -> Result<(R, Cx), String> {
    let mut cx = Cx::default();
    let r = catch_unwind(AssertUnwindSafe(|| f(src, &mut cx)));
    match r {
        Ok(r) => Ok((r, cx)),
        Err(_) => {
            let (msg, loc) = last_panic();
            if is_harness_loc(&loc) {
                return Err(format!("harness panic: {} at {} (case: {})", msg, loc, cx.case));
            }
            let m = format!("the code panicked: {} at {}", msg, loc);
            Ok((Err(Fail::Violation { sig: format!("panic@{}", loc), msg: m }), cx))
        }
    }
}

// ---------------------------------------------------------------- shrinking

/// Shrink a failing choice sequence. `test` says whether a candidate still fails and
/// returns the choices it really consumed.
pub fn shrink(
    start: Vec<u64>,
    budget: usize,
    mut test: impl FnMut(&[u64]) -> Option<Vec<u64>>,
) -> Vec<u64> {
    let mut best = start;
    let mut left = budget;
    let mut improved = true;
    fn simpler(a: &[u64], b: &[u64]) -> bool {
        a.len() < b.len() || (a.len() == b.len() && a < b)
    }
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            let mut ok = false;
            if left > 0 && simpler(&cand, &best) {
                left -= 1;
                if let Some(used) = test(&cand) {
                    let next = if simpler(&used, &cand) { used } else { cand };
                    if simpler(&next, &best) {
                        best = next;
                        ok = true;
                    }
                }
            }
            ok
        }};
    }
    while improved && left > 0 {
        improved = false;
        // Delete chunks, large ones first.
        let mut size = (best.len() / 2).max(1).next_power_of_two();
        while size >= 1 && left > 0 {
            let mut i = best.len();
            while i > 0 && left > 0 {
                let lo = i.saturating_sub(size);
                let mut c = best.clone();
                c.drain(lo..i.min(c.len()));
                if attempt!(c) {
                    improved = true;
                    i = i.min(best.len());
                } else {
                    i = lo;
                }
            }
            size /= 2;
        }
        // Zero chunks.
        for size in [8usize, 4, 2] {
            let mut i = 0;
            while i < best.len() && left > 0 {
                let hi = (i + size).min(best.len());
                if best[i..hi].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    for v in &mut c[i..hi] {
                        *v = 0;
                    }
                    if attempt!(c) {
                        improved = true;
                    }
                }
                i += size;
            }
        }
        // Lower single values, alone or together with deleting what follows.
        let mut i = 0;
        while i < best.len() && left > 0 {
            let v = best[i];
            if v > 0 {
                let mut lo = 0u64;
                let mut hi = v;
                let mut c = best.clone();
                c[i] = 0;
                if attempt!(c) {
                    improved = true;
                } else {
                    while lo + 1 < hi && left > 0 && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt!(c) {
                            improved = true;
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                }
                if i < best.len() && best[i] > 0 {
                    for d in 1..=4usize {
                        if i + 1 + d <= best.len() {
                            let mut c = best.clone();
                            c[i] -= 1;
                            c.drain(i + 1..i + 1 + d);
                            if attempt!(c) {
                                improved = true;
                                break;
                            }
                        }
                    }
                }
            }
            i += 1;
        }
    }
    best
}

// ---------------------------------------------------------------- statistics

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub discards: u64,
    pub known: BTreeMap<String, u64>,
    pub hashes: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub per_sub: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}
