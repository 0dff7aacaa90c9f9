//! Choice source, event log, counters and violations: everything a simulated run draws or reports goes through `Ctx`.

use std::collections::BTreeMap;
use std::fs::File;
use std::io::Write;
use std::sync::{Arc, Mutex, MutexGuard};

/// A property violation. `class` identifies what kind of failure it is (kept constant while minimising).
#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

pub type Res<T> = Result<T, Violation>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::core::Violation { class: String::from($class), msg: format!($($arg)*) });
        }
    };
}

#[macro_export]
macro_rules! fail {
    ($class:expr, $($arg:tt)*) => {
        return Err($crate::core::Violation { class: String::from($class), msg: format!($($arg)*) })
    };
}

/// Appends to the event log (formatting happens only when the log is kept)
#[macro_export]
macro_rules! ev {
    ($ctx:expr, $($arg:tt)*) => {
        if $ctx.logging() { $ctx.log_line(format!($($arg)*)); }
    };
}

/// Leaves out the middle of a very long description
pub fn shorten(s: String) -> String {
    const MOST: usize = 6000;
    if s.len() <= MOST {
        return s;
    }
    let mut a = MOST / 2;
    while !s.is_char_boundary(a) {
        a -= 1;
    }
    let mut b = s.len() - MOST / 2;
    while !s.is_char_boundary(b) {
        b += 1;
    }
    format!("{} [... {} bytes ...] {}", &s[..a], b - a, &s[b..])
}

pub fn mix64(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// xoshiro256** (own copy: nothing outside this file decides the sequence)
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        let mut s = [0u64; 4];
        for v in s.iter_mut() {
            x = x.wrapping_add(0x9E3779B97F4A7C15);
            *v = mix64(x);
        }
        Rng { s }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

enum Mode {
    Random(Rng),
    Replay(Vec<u64>, usize),
}

pub struct Inner {
    mode: Mode,
    pub rec: Vec<u64>,
    pub log: Option<Vec<String>>,
    pub digest: u64,
    pub steps: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub sample: Option<String>,
    pub thorough: bool,
    /// Where choices and log lines go as they happen (used when the run may hang or abort)
    pub sink: Option<File>,
}

#[derive(Clone)]
pub struct Ctx(Arc<Mutex<Inner>>);

impl Ctx {
    pub fn random(seed: u64, log: bool, thorough: bool) -> Ctx {
        Ctx::make(Mode::Random(Rng::new(seed)), log, thorough)
    }
    pub fn replay(choices: Vec<u64>, log: bool, thorough: bool) -> Ctx {
        Ctx::make(Mode::Replay(choices, 0), log, thorough)
    }
    fn make(mode: Mode, log: bool, thorough: bool) -> Ctx {
        Ctx(Arc::new(Mutex::new(Inner {
            mode,
            rec: vec![],
            log: if log { Some(vec![]) } else { None },
            digest: 0,
            steps: 0,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            nontrivial: false,
            sample: None,
            thorough,
            sink: None,
        })))
    }
    pub fn inner(&self) -> MutexGuard<'_, Inner> {
        match self.0.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        }
    }

    /// The one place choices come from: a value in 0..n, 0 being the simplest
    pub fn draw(&self, n: u64) -> u64 {
        let n = n.max(1);
        let mut i = self.inner();
        let v = match i.mode {
            Mode::Random(ref mut r) => r.below(n),
            Mode::Replay(ref v, ref mut p) => {
                let x = v.get(*p).copied().unwrap_or(0);
                *p += 1;
                if x >= n {
                    n - 1
                } else {
                    x
                }
            }
        };
        i.rec.push(v);
        if let Some(ref mut f) = i.sink {
            let _ = f.write_all(format!("c {}\n", v).as_bytes());
        }
        v
    }
    pub fn below(&self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&self, lo: usize, hi: usize) -> usize {
        if hi <= lo {
            return lo;
        }
        lo + self.below(hi - lo + 1)
    }
    /// True with probability num/den; false is the simplest choice
    pub fn chance(&self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num.min(den)
    }
    /// Index drawn with the given weights (earlier ones are simpler)
    pub fn weighted(&self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut v = self.draw(total.max(1));
        for (i, x) in w.iter().enumerate() {
            if v < *x as u64 {
                return i;
            }
            v -= *x as u64;
        }
        0
    }
    /// Heavy-tailed size: mostly small, sometimes up to `max`
    pub fn size(&self, small: usize, medium: usize, max: usize) -> usize {
        match self.weighted(&[60, 30, 10]) {
            0 => self.range(0, small.min(max)),
            1 => self.range(0, medium.min(max)),
            _ => self.range(0, max),
        }
    }
    pub fn pick<'a, T>(&self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// Random weights for an operation mix (swarm testing: some operations are absent in some runs)
    pub fn swarm<const N: usize>(&self, base: [u32; N]) -> [u32; N] {
        let mut out = base;
        for (i, o) in out.iter_mut().enumerate() {
            match self.weighted(&[6, 2, 2]) {
                0 => {}
                1 => *o *= 4,
                _ => {
                    if i > 0 {
                        *o = 0
                    }
                }
            }
        }
        out
    }

    pub fn logging(&self) -> bool {
        self.inner().log.is_some()
    }
    pub fn log_line(&self, s: String) {
        let s = shorten(s);
        let mut i = self.inner();
        let mut kept = false;
        if let Some(ref mut l) = i.log {
            if l.len() < 20000 {
                l.push(s.clone());
                kept = true;
            }
        }
        if kept {
            if let Some(ref mut f) = i.sink {
                let _ = f.write_all(format!("l {}\n", s.replace('\n', " ")).as_bytes());
            }
        }
    }
    /// Folds an observation into the run's digest (distinct digests = distinct executions)
    pub fn mix(&self, v: u64) {
        let mut i = self.inner();
        i.digest = mix64(i.digest ^ v);
        i.steps += 1;
    }
    pub fn fault(&self, name: &'static str) {
        *self.inner().faults.entry(name).or_insert(0) += 1;
    }
    pub fn probe(&self, name: &'static str) {
        *self.inner().probes.entry(name).or_insert(0) += 1;
    }
    pub fn nontrivial(&self) {
        self.inner().nontrivial = true;
    }
    /// Describes the run's case: part of the digest, and kept as a sample for the evidence
    pub fn sample(&self, f: impl FnOnce() -> String) {
        let s = f();
        let mut h = 0xcbf29ce484222325u64;
        for b in s.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let mut i = self.inner();
        i.digest = mix64(i.digest ^ h);
        if i.sample.is_none() {
            i.sample = Some(s);
        }
    }
    pub fn thorough(&self) -> bool {
        self.inner().thorough
    }
}
