//! Property-testing engine. A check is a function of a `Src`, a source of
//! bounded integer choices. Cases are generated (random with boundary bias,
//! or by coverage-guided mutation), failures are shrunk by minimising the
//! choice sequence, and a replay file is a choice sequence.

pub mod alloc;
pub mod cov;
pub mod rng;
mod run;
mod shrink;

pub use rng::Rng;
pub use run::{main, schedules_matter, set_extra_worker_cases, Prop};

use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const MAX_CHOICES: usize = 1 << 19;

pub struct Src {
    rng: Rng,
    prefix: Vec<u64>,
    pub strict: bool,
    pub(crate) rec: Vec<u64>,
    pub(crate) maxes: Vec<u64>,
    pub(crate) labels: Vec<&'static str>,
    pub(crate) nontrivial: bool,
    pub(crate) log_on: bool,
    pub(crate) log: Vec<String>,
    pub thorough: bool,
    crash: *mut u64,
    unbounded: bool,
}

impl Src {
    pub(crate) fn new(rng: Rng, prefix: Vec<u64>, strict: bool) -> Src {
        Src {
            rng,
            prefix,
            strict,
            rec: Vec::new(),
            maxes: Vec::new(),
            labels: Vec::new(),
            nontrivial: false,
            log_on: false,
            log: Vec::new(),
            thorough: run::thorough(),
            crash: run::crash_buf(),
            unbounded: false,
        }
    }

    fn no_record(&mut self) {
        self.crash = std::ptr::null_mut();
        self.unbounded = true;
    }

    /// The primitive: one recorded choice in `0 ..= max`; `gen` is used when
    /// no recorded choice is left.
    pub fn draw<F: FnOnce(&mut Rng) -> u64>(&mut self, max: u64, gen: F) -> u64 {
        if self.unbounded {
            let v = gen(&mut self.rng);
            return if v <= max { v } else { v % (max + 1) };
        }
        let i = self.rec.len();
        if i >= MAX_CHOICES {
            panic!("HARNESS: too many choices in one case");
        }
        let v = if i < self.prefix.len() {
            let p = self.prefix[i];
            if p <= max {
                p
            } else {
                p % (max + 1)
            }
        } else if self.strict {
            0
        } else {
            let v = gen(&mut self.rng);
            if v <= max {
                v
            } else {
                v % (max + 1)
            }
        };
        if !self.crash.is_null() {
            unsafe {
                *self.crash.add(1 + i) = v;
                *self.crash = i as u64 + 1;
            }
        }
        self.rec.push(v);
        self.maxes.push(max);
        v
    }

    /// Uniform in `0 .. n`.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0, "HARNESS: below(0)");
        self.draw(n - 1, |r| r.upto(n - 1))
    }

    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// Uniform in `lo ..= hi`.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        assert!(lo <= hi, "HARNESS: empty range");
        lo + self.draw(hi - lo, |r| r.upto(hi - lo))
    }

    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }

    pub fn bool(&mut self) -> bool {
        self.draw(1, |r| r.next() & 1) == 1
    }

    /// True with probability `num/den`; shrinks to false.
    pub fn prob(&mut self, num: u64, den: u64) -> bool {
        self.draw(1, |r| (r.below(den) < num) as u64) == 1
    }

    /// True once in `den` cases, for costly ones. Never in coverage-guided
    /// runs, where mutation would make such cases common.
    pub fn rare(&mut self, den: u64) -> bool {
        self.prob(1, den) && !cov::instrumented()
    }

    /// Continue a list? True with probability `num/den`.
    pub fn more(&mut self, num: u64, den: u64) -> bool {
        self.prob(num, den)
    }

    /// In `0 ..= max`, biased to boundaries: small, near the maximum, around
    /// powers of two and multiples of block sizes, constants of the code.
    pub fn big(&mut self, max: u64) -> u64 {
        self.draw(max, |r| biased(r, max))
    }

    /// In `lo ..= hi`, biased to boundaries.
    pub fn brange(&mut self, lo: u64, hi: u64) -> u64 {
        assert!(lo <= hi, "HARNESS: empty range");
        lo + self.draw(hi - lo, |r| {
            let v = biased(r, hi);
            if v >= lo {
                v - lo
            } else {
                biased(r, hi - lo)
            }
        })
    }

    /// A length or index in `0 ..= max`, biased to boundaries.
    pub fn size(&mut self, max: usize) -> usize {
        self.big(max as u64) as usize
    }

    /// Any 64-bit word: sparse, dense, runs, patterns, extremes.
    pub fn word(&mut self) -> u64 {
        self.draw(u64::MAX, word)
    }

    /// A word of `bits` bits.
    pub fn bits(&mut self, bits: usize) -> u64 {
        let max = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
        self.draw(max, |r| match r.below(8) {
            0 => max,
            1 => biased(r, max),
            2 => (max >> 1).wrapping_add(1) & max,
            _ => word(r) & max,
        })
    }

    /// Index chosen with the given weights.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        self.draw(w.len() as u64 - 1, |r| {
            let mut x = r.below(total as u64) as u32;
            for (i, &k) in w.iter().enumerate() {
                if x < k {
                    return i as u64;
                }
                x -= k;
            }
            unreachable!()
        }) as usize
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }

    /// Swarm testing: the weights with a random subset (chosen once per
    /// history) of the choices switched off. Choice 0 stays on.
    pub fn swarm(&mut self, w: &[u32]) -> Vec<u32> {
        let n = w.len() as u64;
        let off = self.draw((1 << n) - 1, |r| match r.below(4) {
            0 => 0,
            1 => r.next() & r.next(),
            2 => r.next(),
            _ => r.next() | r.next(),
        } & ((1 << n) - 2));
        w.iter().enumerate().map(|(i, &x)| if i > 0 && off >> i & 1 == 1 { 0 } else { x }).collect()
    }

    /// Counts the current case in the named class (once per call).
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }

    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }

    /// Marks the case as non-trivial by the property's stated rule.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }

    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }

    /// Adds a line to the description of the case.
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.log_on {
            self.log.push(f());
        }
    }
}

fn near(r: &mut Rng, v: u64) -> u64 {
    match r.below(4) {
        0 => v.wrapping_sub(1),
        1 => v.wrapping_add(1),
        _ => v,
    }
}

fn log_uniform(r: &mut Rng, max: u64) -> u64 {
    let b = 64 - max.leading_zeros() as u64;
    let k = r.upto(b);
    if k == 0 {
        0
    } else {
        let top = 1u64 << (k - 1);
        top | (r.next() & (top - 1))
    }
}

pub fn biased(r: &mut Rng, max: u64) -> u64 {
    if max == 0 {
        return 0;
    }
    let v = match r.below(16) {
        0..=3 => r.upto(max),
        4 => r.upto(4),
        5 => max - r.upto(3.min(max)),
        6 => {
            let b = 64 - max.leading_zeros() as u64;
            let p = r.below(b);
            near(r, 1u64 << p)
        }
        7 => {
            let m = r.upto(max / 64);
            near(r, m * 64)
        }
        8 => {
            let m = r.upto((max / 64).min(8));
            near(r, m * 64)
        }
        9 => {
            let k = 8u64 << r.below(3);
            let m = r.upto((max / k).min(9));
            near(r, m * k)
        }
        10 => {
            let m = r.upto(max / 512);
            near(r, m * 512)
        }
        11 => {
            let d = &cov::st().dict;
            if d.is_empty() {
                r.upto(max)
            } else {
                let c = d[r.below(d.len() as u64) as usize];
                near(r, c)
            }
        }
        _ => log_uniform(r, max),
    };
    if v <= max {
        v
    } else if max == u64::MAX {
        v
    } else {
        v % (max + 1)
    }
}

fn word(r: &mut Rng) -> u64 {
    match r.below(12) {
        0 => 0,
        1 => u64::MAX,
        2 => r.next() & r.next() & r.next(),
        3 => r.next() | r.next() | r.next(),
        4 => 1u64 << r.below(64),
        5 => !(1u64 << r.below(64)),
        6 => {
            let k = r.below(64);
            u64::MAX << k
        }
        7 => {
            let k = r.below(64);
            u64::MAX >> k
        }
        8 => biased(r, u64::MAX),
        9 => {
            // bytes drawn from extremes
            let mut w = 0;
            for _ in 0..8 {
                let b = match r.below(6) {
                    0 => 0,
                    1 => 0xFF,
                    2 => 0x80,
                    3 => 0x7F,
                    4 => 1,
                    _ => r.next() & 0xFF,
                };
                w = w << 8 | b;
            }
            w
        }
        _ => r.next(),
    }
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub(crate) fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!(" [{}:{}]", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = msg + &loc);
    }));
}

/// Runs `f`, catching a panic and returning its message.
pub fn catch<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

/// `f` must panic.
pub fn must_panic<T, F: FnOnce() -> T>(what: impl FnOnce() -> String, f: F) {
    if catch(f).is_ok() {
        panic!("{}: accepted, but must be rejected by a panic", what());
    }
}

/// A source for fixed scenarios: its choices come from a fixed seed.
pub fn fixed_src() -> Src {
    let mut s = Src::new(Rng::new(&[7]), Vec::new(), false);
    s.no_record();
    s
}
