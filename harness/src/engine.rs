//! A small property-based-testing engine: choice-sequence generators (so that every generated
//! value can be replayed and shrunk by editing the sequence), a multi-process runner that
//! survives aborts, stack overflows and hangs of the code under test, and an evidence writer.

use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        let mut n = || {
            s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            z ^ (z >> 31)
        };
        let a = n();
        let b = n() | 1;
        Rng(a, b)
    }
    pub fn next(&mut self) -> u64 {
        // xoroshiro128+
        let (s0, mut s1) = (self.0, self.1);
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        r
    }
}

pub fn fnv(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// Source of choices. Either random (recording) or replaying a recorded sequence; a replay that
/// runs past its end draws zeros, and generators put their simplest alternative at zero.
pub struct Src {
    pub choices: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    /// a mutated sequence: some choices given, the others drawn
    script: Vec<Option<u64>>,
    stream: Option<std::fs::File>,
    /// 0..=100, grows with the case index: generators scale structure sizes by it
    pub size: u64,
}

impl Src {
    pub fn random(seed: u64, size: u64) -> Self {
        let mut s = Src {
            choices: Vec::with_capacity(256),
            pos: 1,
            rng: Some(Rng::new(seed)),
            script: vec![],
            stream: std::env::var_os("SVDVERIF_STREAM").and_then(|p| std::fs::File::create(p).ok()),
            size,
        };
        s.record(size);
        s
    }
    /// Follows the script where it gives a choice, and draws at random where it does not
    pub fn scripted(script: Vec<Option<u64>>, seed: u64) -> Self {
        let size = script.first().copied().flatten().unwrap_or(50).min(100);
        let mut s = Src::random(seed, size);
        s.script = script;
        s
    }
    fn given(&self) -> Option<u64> {
        self.script.get(self.pos).copied().flatten()
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        let size = choices.first().copied().unwrap_or(0).min(100);
        Src {
            choices,
            pos: 1,
            rng: None,
            script: vec![],
            stream: None,
            size,
        }
    }
    fn record(&mut self, v: u64) {
        self.choices.push(v);
        if let Some(f) = &mut self.stream {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
    }
    /// Uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let given = self.given();
        let v = match &mut self.rng {
            Some(r) => {
                let v = match given {
                    Some(v) => v.min(n - 1),
                    None => ((r.next() as u128 * n as u128) >> 64) as u64,
                };
                self.record(v);
                v
            }
            None => {
                let v = self.choices.get(self.pos).copied().unwrap_or(0);
                v.min(n - 1)
            }
        };
        self.pos += 1;
        v
    }
    pub fn u64(&mut self) -> u64 {
        let given = self.given();
        let v = match &mut self.rng {
            Some(r) => {
                let v = given.unwrap_or_else(|| r.next());
                self.record(v);
                v
            }
            None => self.choices.get(self.pos).copied().unwrap_or(0),
        };
        self.pos += 1;
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// true with probability num/den; the zero choice means false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn flip(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }
    pub fn opt<T>(&mut self, num: u64, den: u64, f: impl FnOnce(&mut Self) -> T) -> Option<T> {
        if self.chance(num, den) {
            Some(f(self))
        } else {
            None
        }
    }
    pub fn vec<T>(&mut self, min: usize, max: usize, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let mut v = Vec::new();
        // expected length grows with size
        let num = 2 + self.size * 6 / 100;
        while v.len() < max && (v.len() < min || self.chance(num, 10)) {
            v.push(f(self));
        }
        v
    }
    /// Interesting 64-bit value limited to `bits` bits
    pub fn num(&mut self, bits: u32) -> u64 {
        let mask = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
        let v = match self.below(16) {
            0..=3 => self.below(8),
            4..=6 => self.below(1 << 12),
            // about a number the code under test mentions
            7 if !literals().nums.is_empty() => {
                let d = self.below(4).wrapping_sub(1);
                self.pick(&literals().nums).wrapping_add(if d > 1 { 0 } else { d })
            }
            7 => self.below(1 << 8),
            8 | 9 => {
                let k = self.below(bits.max(1) as u64);
                (1u64 << k).wrapping_add(self.below(3)).wrapping_sub(1)
            }
            10 | 11 => mask.wrapping_sub(self.below(3)),
            12 | 13 => {
                let k = self.below(bits.max(1) as u64);
                self.u64() >> (63 - k)
            }
            _ => self.u64(),
        };
        v & mask
    }
    pub fn u32(&mut self) -> u32 {
        self.num(32) as u32
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub msg: String,
}
impl Fail {
    pub fn new(msg: impl Into<String>) -> Self {
        Fail { msg: msg.into() }
    }
}
impl From<String> for Fail {
    fn from(s: String) -> Self {
        Fail { msg: s }
    }
}
impl From<&str> for Fail {
    fn from(s: &str) -> Self {
        Fail { msg: s.into() }
    }
}
pub type Out = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::engine::Fail::new(format!($($a)*))); } };
}
#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::engine::Fail::new(format!($($a)*))) };
}

/// What the cases of one run covered
#[derive(Default)]
pub struct Cov {
    pub classes: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub evals: u64,
    pub nontrivial: u64,
    pub last_input: String,
    case_nontrivial: bool,
    case_key: u64,
}
impl Cov {
    pub fn hit(&mut self, class: &str) {
        if let Some(c) = self.classes.get_mut(class) {
            *c += 1;
        } else {
            self.classes.insert(class.to_string(), 1);
        }
    }
    pub fn hit_if(&mut self, c: bool, class: &str) {
        if c {
            self.hit(class)
        }
    }
    /// Describe the input of the current case (used for the replay file and for distinctness)
    pub fn input(&mut self, s: impl Into<String>) {
        self.last_input = s.into();
        self.case_key = fnv(self.last_input.as_bytes());
        if let Some(p) = std::env::var_os("SVDVERIF_INPUT") {
            let _ = std::fs::write(p, &self.last_input);
        }
    }
    /// Say that the current case is non-trivial by the property's rule
    pub fn nontrivial(&mut self) {
        self.case_nontrivial = true;
    }
    /// An extra evaluation inside one case (e.g. one more configuration of the same input)
    pub fn sub(&mut self, key: &str, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            self.nontrivial += 1;
            if self.distinct.len() < 400_000 {
                self.distinct
                    .insert(self.case_key ^ fnv(key.as_bytes()).rotate_left(17));
            }
        }
    }
    fn begin(&mut self) {
        self.case_nontrivial = false;
        self.last_input.clear();
        self.case_key = 0;
    }
    fn end(&mut self) {
        self.evals += 1;
        if self.case_nontrivial {
            self.nontrivial += 1;
            if self.distinct.len() < 400_000 {
                self.distinct.insert(self.case_key);
            }
            if self.samples.len() < 3 && self.nontrivial % 37 == 1 {
                let mut s = self.last_input.clone();
                if s.len() > 1500 {
                    let mut k = 1500;
                    while !s.is_char_boundary(k) {
                        k -= 1;
                    }
                    s.truncate(k);
                    s.push_str(" …(truncated)");
                }
                self.samples.push(s);
            }
        }
    }
}

pub type CaseFn = fn(&mut Src, &mut Cov) -> Out;
/// A specific input run on every check: a listed known finding or a fixed regression input.
pub struct Directed {
    pub name: &'static str,
    pub run: fn() -> Out,
}
pub struct Prop {
    pub id: &'static str,
    pub title: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub case: CaseFn,
    pub directed: &'static [Directed],
    pub assumptions: &'static [&'static str],
}

static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some((loc, msg));
    }));
}

fn take_panic() -> (String, String) {
    LAST_PANIC
        .lock()
        .unwrap_or_else(|e| e.into_inner())
        .take()
        .unwrap_or_default()
}

/// Run code under test; a panic becomes an Err with its message and location.
pub fn quietly<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = take_panic();
            Err(format!("panicked at {loc}: {msg}"))
        }
    }
}

pub enum Verdict {
    Pass,
    Fail(String),
    /// the harness itself panicked
    Broken(String),
}

pub fn run_case(p: &Prop, src: &mut Src, cov: &mut Cov) -> Verdict {
    cov.begin();
    let r = catch_unwind(AssertUnwindSafe(|| (p.case)(src, cov)));
    match r {
        Ok(Ok(())) => {
            cov.end();
            Verdict::Pass
        }
        Ok(Err(f)) => Verdict::Fail(f.msg),
        Err(_) => {
            let (loc, msg) = take_panic();
            if p.id == "P20" && msg.starts_with(crate::model::REFUSED) {
                Verdict::Fail(msg)
            } else if loc.starts_with("src/") || loc.contains("/verif/harness/") {
                Verdict::Broken(format!("harness panicked at {loc}: {msg}"))
            } else {
                Verdict::Fail(format!("code under test panicked at {loc}: {msg}"))
            }
        }
    }
}

/// Generic shrinker over choice sequences
pub fn shrink(
    start: Vec<u64>,
    budget: Duration,
    max_evals: usize,
    mut still_fails: impl FnMut(&[u64]) -> bool,
) -> (Vec<u64>, usize) {
    let t0 = Instant::now();
    let mut best = start;
    let mut evals = 0usize;
    let over = |evals: &usize| t0.elapsed() > budget || *evals >= max_evals;
    loop {
        let before = best.clone();
        // delete chunks
        let mut k = 1usize;
        while k * 2 < best.len() {
            k *= 2;
        }
        while k >= 1 {
            let mut i = best.len();
            while i > 1 {
                if over(&evals) {
                    return (best, evals);
                }
                let lo = i.saturating_sub(k).max(1);
                let mut c = best.clone();
                c.drain(lo..i);
                evals += 1;
                if still_fails(&c) {
                    best = c;
                    i = lo.min(best.len());
                } else {
                    i = lo;
                }
            }
            k /= 2;
        }
        // zero chunks
        for k in [32usize, 8, 3, 1] {
            let mut i = 0;
            while i < best.len() {
                let hi = (i + k).min(best.len());
                if best[i..hi].iter().any(|&v| v != 0) {
                    if over(&evals) {
                        return (best, evals);
                    }
                    let mut c = best.clone();
                    c[i..hi].iter_mut().for_each(|v| *v = 0);
                    evals += 1;
                    if still_fails(&c) {
                        best = c;
                    }
                }
                i = hi;
            }
        }
        // minimise values
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi {
                if over(&evals) {
                    return (best, evals);
                }
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                evals += 1;
                if still_fails(&c) {
                    hi = mid;
                    best = c;
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        while best.last() == Some(&0) && best.len() > 1 {
            best.pop();
        }
        if best == before {
            return (best, evals);
        }
    }
}

// ------------------------------------------------------------------ coverage guidance

/// Counters of the edges of the code under test, put there by the compiler
static COUNTERS: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let r = (start as usize, stop as usize);
    let mut v = COUNTERS.lock().unwrap_or_else(|e| e.into_inner());
    if !v.contains(&r) {
        v.push(r);
    }
}

/// Which edges were taken how often so far, and the cases that were the first to do so
#[derive(Default)]
pub struct Guide {
    seen: Vec<u8>,
    pub corpus: Vec<Vec<u64>>,
    ranges: Vec<(usize, usize)>,
}
impl Guide {
    pub fn new() -> Self {
        let ranges = COUNTERS.lock().unwrap_or_else(|e| e.into_inner()).clone();
        let n = ranges.iter().map(|r| r.1 - r.0).sum();
        Guide { seen: vec![0; n], corpus: vec![], ranges }
    }
    pub fn edges(&self) -> (usize, usize) {
        (self.seen.iter().filter(|b| **b != 0).count(), self.seen.len())
    }
    pub fn reset(&mut self) {
        for (a, b) in &self.ranges {
            // SAFETY: the range of counters the compiler reserved; this process runs the code
            // under test in this thread only
            unsafe { std::ptr::write_bytes(*a as *mut u8, 0, b - a) }
        }
    }
    /// true if the case run since the last reset did something no case did before
    pub fn news(&mut self) -> bool {
        let mut new = false;
        let mut k = 0;
        for (a, b) in &self.ranges {
            // SAFETY: as above
            let v = unsafe { std::slice::from_raw_parts(*a as *const u8, b - a) };
            for part in v.chunks(64) {
                if part.iter().fold(0, |x, c| x | c) != 0 {
                    for (c, seen) in part.iter().zip(&mut self.seen[k..]).filter(|x| *x.0 != 0) {
                        let bit = match c {
                            1 => 1u8,
                            2 => 2,
                            3 => 4,
                            4..=7 => 8,
                            8..=15 => 16,
                            16..=31 => 32,
                            32..=127 => 64,
                            _ => 128,
                        };
                        if *seen & bit == 0 {
                            *seen |= bit;
                            new = true;
                        }
                    }
                }
                k += part.len();
            }
        }
        new
    }
    /// which cases to combine: recent ones more often
    pub fn choose(&self, r: &mut Rng) -> (usize, usize) {
        let n = self.corpus.len() as u64;
        let one = |r: &mut Rng| {
            let k = r.next() % n;
            if r.next() % 2 == 0 {
                (n - 1 - k / 4) as usize
            } else {
                k as usize
            }
        };
        // short ones are varied more often
        let mut a = one(r);
        for _ in 0..2 {
            let c = one(r);
            if self.corpus[c].len() < self.corpus[a].len() {
                a = c;
            }
        }
        (a, one(r))
    }
}

/// A variation of choice sequence a, possibly with parts of b
pub fn mutate(a: &[u64], b: &[u64], r: &mut Rng) -> Vec<Option<u64>> {
    let mut v: Vec<Option<u64>> = a.iter().map(|x| Some(*x)).collect();
    let at = |r: &mut Rng, n: usize| 1 + (r.next() % n.max(1) as u64) as usize;
    let most = 2 * a.len().max(200);
    for _ in 0..1 + r.next() % 4 {
        v.truncate(most);
        let n = v.len();
        if n < 2 {
            break;
        }
        let i = at(r, n - 1).min(n - 1);
        let len = 1 + (r.next() % (1 << (r.next() % 6))) as usize;
        let j = (i + len).min(n);
        match r.next() % 9 {
            0 | 1 => v[i] = None,
            2 => v[i] = v[i].map(|x| if r.next() % 2 == 0 { x.wrapping_add(1) } else { x.saturating_sub(1) }),
            3 => v[i..j].fill(None),
            4 => {
                v.drain(i..j);
            }
            5 => {
                v.splice(i..i, vec![None; len]);
            }
            6 => {
                let c = v[i..j].to_vec();
                let k = at(r, n - 1).min(n - 1);
                v.splice(k..k, c);
            }
            7 if b.len() > 1 => {
                let k = at(r, b.len() - 1).min(b.len() - 1);
                v.truncate(i);
                v.extend(b[k..].iter().map(|x| Some(*x)));
            }
            7 => v.truncate(i),
            _ => {
                if r.next() % 4 == 0 {
                    v.truncate(i)
                } else if b.len() > 1 {
                    let k = at(r, b.len() - 1).min(b.len() - 1);
                    let e = (k + len).min(b.len());
                    v.splice(i..j, b[k..e].iter().map(|x| Some(*x)));
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------ literals of the code under test

/// Words and numbers that occur in the code under test, used by the generators like the
/// dictionary of a fuzzer
#[derive(Default)]
pub struct Literals {
    pub words: Vec<String>,
    pub idents: Vec<String>,
    pub nums: Vec<u64>,
}
static LITERALS: OnceLock<Literals> = OnceLock::new();

pub fn literals() -> &'static Literals {
    static NONE: Literals = Literals { words: vec![], idents: vec![], nums: vec![] };
    LITERALS.get().unwrap_or(&NONE)
}
pub fn set_literals(words: Vec<String>, nums: Vec<u64>) {
    let name = |w: &&String| {
        w.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
            && w.chars().any(|c| c != '_')
            && !w.starts_with(|c: char| c.is_ascii_digit())
    };
    let idents = words.iter().filter(name).cloned().collect();
    let _ = LITERALS.set(Literals { words, idents, nums });
}
/// Scan Rust source for literals, up to the unit tests
pub fn scan_literals(src: &str, words: &mut BTreeSet<String>, nums: &mut BTreeSet<u64>) {
    let src = src.split("#[cfg(test)]").next().unwrap_or("");
    let b: Vec<char> = src.chars().collect();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            '/' if b.get(i + 1) == Some(&'/') => {
                while i < b.len() && b[i] != '\n' {
                    i += 1;
                }
            }
            '"' => {
                let mut w = String::new();
                i += 1;
                while i < b.len() && b[i] != '"' {
                    if b[i] == '\\' && i + 1 < b.len() {
                        i += 1;
                        match b[i] {
                            'n' => w.push('\n'),
                            't' => w.push('\t'),
                            c => w.push(c),
                        }
                    } else {
                        w.push(b[i]);
                    }
                    i += 1;
                }
                i += 1;
                if !w.is_empty() && w.chars().count() <= 20 {
                    words.insert(w);
                }
            }
            // a character, but not a lifetime
            '\'' if b.get(i + 2) == Some(&'\'') && b[i + 1] != '\\' => {
                words.insert(b[i + 1].to_string());
                i += 3;
            }
            c if c.is_ascii_digit() && !(i > 0 && (b[i - 1].is_alphanumeric() || b[i - 1] == '_')) => {
                let mut w = String::new();
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                    w.push(b[i]);
                    i += 1;
                }
                let w = w.replace('_', "");
                let w = w.split(['u', 'i']).next().unwrap_or("");
                let v = if let Some(h) = w.strip_prefix("0x") {
                    u64::from_str_radix(h, 16)
                } else if let Some(h) = w.strip_prefix("0b") {
                    u64::from_str_radix(h, 2)
                } else {
                    w.parse()
                };
                if let Ok(v) = v {
                    nums.insert(v);
                }
            }
            _ => i += 1,
        }
    }
}

pub fn case_src(id: &str, seed: u64, index: u64) -> Src {
    let s = fnv(format!("{id}/{seed}/{index}").as_bytes());
    Src::random(s, (index * 7) % 101)
}
