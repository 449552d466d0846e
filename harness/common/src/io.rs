//! User-defined bit sources and sinks: bounded, counting, failing.

use std::io::{Error, ErrorKind, Result};
use succinct::stream::{BitRead, BitWrite};

/// The error injected by failing sources and sinks.
pub const TAG: &str = "injected fault";

pub const FAULTS: [ErrorKind; 6] = [
    ErrorKind::BrokenPipe,
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidData,
    ErrorKind::Other,
    ErrorKind::WouldBlock,
    ErrorKind::NotFound,
];

pub fn fault(kind: usize) -> Error {
    Error::new(FAULTS[kind], TAG)
}

pub fn is_fault(e: &Error, kind: usize) -> bool {
    e.kind() == FAULTS[kind] && e.to_string() == TAG
}

/// Reads the model's bits; counts; optionally fails at call number `fail_at`.
/// Reading on after the end, or after the failure, is bounded.
pub struct Source<'a> {
    pub bits: &'a [bool],
    pub pos: usize,
    pub calls: usize,
    pub fail_at: Option<usize>,
    pub kind: usize,
    pub failed: bool,
    pub after_fail: usize,
    pub after_end: usize,
}

impl<'a> Source<'a> {
    pub fn new(bits: &'a [bool]) -> Self {
        Source { bits, pos: 0, calls: 0, fail_at: None, kind: 0, failed: false, after_fail: 0, after_end: 0 }
    }
}

impl<'a> BitRead for Source<'a> {
    fn read_bit(&mut self) -> Result<Option<bool>> {
        if self.failed {
            self.after_fail += 1;
            assert!(self.after_fail < 100_000, "keeps reading after the source failed");
            return Err(fault(self.kind));
        }
        if self.fail_at == Some(self.calls) {
            self.failed = true;
            return Err(fault(self.kind));
        }
        self.calls += 1;
        if self.pos < self.bits.len() {
            self.pos += 1;
            Ok(Some(self.bits[self.pos - 1]))
        } else {
            self.after_end += 1;
            assert!(self.after_end < 100_000, "keeps reading after the end of the source");
            Ok(None)
        }
    }
}

/// Collects bits; optionally fails when asked to write bit number `fail_at`.
#[derive(Default)]
pub struct Sink {
    pub bits: Vec<bool>,
    pub fail_at: Option<usize>,
    pub kind: usize,
    pub failed: bool,
    pub after_fail: usize,
    pub limit: usize,
}

impl Sink {
    pub fn new(limit: usize) -> Self {
        Sink { limit, ..Default::default() }
    }
}

impl BitWrite for Sink {
    fn write_bit(&mut self, v: bool) -> Result<()> {
        if self.failed {
            self.after_fail += 1;
            assert!(self.after_fail < 100_000, "keeps writing after the sink failed");
            return Err(fault(self.kind));
        }
        if self.fail_at == Some(self.bits.len()) {
            self.failed = true;
            return Err(fault(self.kind));
        }
        assert!(self.bits.len() < self.limit, "writes more than {} bits", self.limit);
        self.bits.push(v);
        Ok(())
    }
}
