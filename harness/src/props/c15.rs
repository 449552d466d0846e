//! C15: stream errors are passed on unchanged, at once.

use common::codes::{gen_kind, gen_value, wide, Enc, Kind};
use common::ints::{int_bits, read_int, write_int, TYPES};
use common::io::{fault, is_fault, Sink, Source, FAULTS};
use common::*;
use byteorder::{BigEndian, LittleEndian};
use engine::{catch, Prop, Src};
use std::fmt::Write as _;
use std::io::{Read, Result, Write};
use succinct::bit_vec::{BitVecPush, BitVector};
use succinct::int_vec::{IntVec, IntVector};

pub const PROP: Prop = Prop {
    id: "C15",
    rule: "one encode, decode, integer or block transfer, run once undisturbed and then with the stream \
           failing at every bit or byte (300 of them for long codewords), with one of six kinds of error; \
           the error returned, what was transferred before and that nothing is transferred after are \
           compared; or vectors rendered into a \
           text sink with room for less. Non-trivial: at least 8 failure points",
    case,
    directed: &[("every code with small values", codes_small)],
};

/// A text sink with room for so many bytes.
struct Text {
    got: String,
    room: usize,
    failed: bool,
}

impl std::fmt::Write for Text {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        assert!(!self.failed, "keeps writing after the sink failed");
        if self.got.len() + t.len() > self.room {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.got += t;
        Ok(())
    }
}

fn render<F: Fn(&mut Text) -> std::fmt::Result>(what: &str, f: F) -> usize {
    let mut t = Text { got: String::new(), room: usize::MAX, failed: false };
    assert!(f(&mut t).is_ok(), "{}: fails though the sink does not", what);
    let all = t.got;
    let step = all.len() / 300 + 1;
    for room in (0..all.len()).step_by(step) {
        let mut t = Text { got: String::new(), room, failed: false };
        let r = f(&mut t);
        assert!(t.failed, "{}: {} bytes of {} were enough", what, room, all.len());
        assert!(r.is_err(), "{}: the sink failed after {} bytes, but success is reported", what, t.got.len());
        assert!(all.starts_with(&t.got), "{}: {:?} was written before the failure, of {:?}", what, t.got, all);
    }
    all.len() / step
}

fn rendering<B: Blk>(s: &mut Src) -> usize {
    let n = s.size(200);
    let m = gen_bits(s, n);
    let k = gen_width(s, B::BITS);
    let mut v: BitVector<B> = BitVector::new();
    let mut iv: IntVector<B> = IntVector::new(k);
    for (i, &b) in m.iter().enumerate() {
        v.push_bit(b);
        if (i + 1) * k <= n {
            iv.push(B::of(mget(&m, i * k, k)));
        }
    }
    s.note(|| format!("render {} bits and {} integers of {} bits: {}", n, iv.len(), k, show(&m)));
    let a = render("a bit vector in binary", |t| write!(t, "{:b}", v));
    let b = render("an integer vector", |t| write!(t, "{:?}", iv));
    a + b
}

pub fn case(s: &mut Src) {
    let n = match s.idx(6) {
        0 | 1 => {
            s.label("encode");
            let k = gen_kind(s);
            let r = k.reference();
            let v = gen_value(s, &r);
            let kind = s.idx(FAULTS.len());
            s.note(|| format!("encode {} in {:?}", v, r));
            encode(k, v, kind)
        }
        2 => {
            s.label("decode");
            let k = gen_kind(s);
            let r = k.reference();
            let kind = s.idx(FAULTS.len());
            let mut b = match s.idx(4) {
                0 => {
                    let n = s.size(200);
                    gen_bits(s, n)
                }
                1 => wide(&r, (1u128 << 64) - 5 + s.below(10) as u128),
                _ => {
                    let v = gen_value(s, &r);
                    match r.encode(v) {
                        Enc::Bits(b) => b,
                        _ => vec![true, false, false],
                    }
                }
            };
            if !b.is_empty() && s.prob(1, 4) {
                let n = gen_pos(s, b.len());
                b.truncate(n);
            }
            s.note(|| format!("decode {} in {:?}", show(&b), r));
            decode(&b, kind, &format!("{:?}", r), |s| k.decode(s))
        }
        5 => {
            s.label("rendering");
            with_any_block!(s, rendering(s))
        }
        3 => {
            s.label("integer");
            let t = s.idx(TYPES.len());
            let (k, be, kind) = (s.size(TYPES[t].1), s.bool(), s.idx(FAULTS.len()));
            let v = s.word() as u128 | (s.word() as u128) << 64;
            s.note(|| format!("{} bits of {:#x} as {} (be: {})", k, v, TYPES[t].0, be));
            let b = int_bits(be, k, v);
            write(&b, kind, "write_int", |w| write_int(w, t, be, k, v));
            let mut b = b;
            if s.bool() {
                b.truncate(k / 2);
            }
            decode(&b, kind, "read_int", |r| read_int(r, t, be, k)) + k
        }
        _ => {
            s.label("block");
            with_block!(s, block(s))
        }
    };
    s.nontrivial_if(n >= 8);
}

fn points(n: usize) -> Vec<usize> {
    if n <= 200 {
        (0..=n + 1).collect()
    } else {
        (0..100).chain((0..100).map(|i| 100 + i * (n - 200) / 100)).chain(n - 100..=n + 1).collect()
    }
}

fn encode(k: Kind, v: u64, kind: usize) -> usize {
    let r = k.reference();
    match r.encode(v) {
        Enc::Bits(b) => write(&b, kind, &format!("{:?} of {}", r, v), |w| k.encode(w, v)),
        _ => 0,
    }
}

/// Runs a writer with the sink failing at each bit of its output.
fn write(bits: &[bool], kind: usize, what: &str, f: impl Fn(&mut Sink) -> Result<()>) -> usize {
    let n = bits.len();
    for at in points(n) {
        let mut w = Sink::new(n + 1000);
        w.fail_at = Some(at);
        w.kind = kind;
        let res = match catch(|| f(&mut w)) {
            Ok(r) => r,
            Err(p) => panic!("{} panics when bit {} of {} fails: {}", what, at, n, p),
        };
        if at < n {
            match res {
                Err(e) if is_fault(&e, kind) => {}
                e => panic!("{}: failure {:?} at bit {} of {} is reported as {:?}", what, fault(kind), at, n, e),
            }
            assert!(w.bits == bits[..at], "{}: before the failure at bit {}, wrote {}, expected {}", what, at, show(&w.bits), show(&bits[..at]));
            assert!(w.after_fail == 0, "{}: {} more writes after the failure at bit {}", what, w.after_fail, at);
        } else {
            assert!(res.is_ok(), "{}: {:?} although nothing failed", what, res);
            assert!(w.bits == bits, "{}: wrote {}, expected {}", what, show(&w.bits), show(bits));
        }
    }
    n
}

/// Runs a reader with the source failing at each of its reads.
fn decode<T: PartialEq + std::fmt::Debug>(bits: &[bool], kind: usize, what: &str, f: impl Fn(&mut Source) -> Result<T>) -> usize {
    let mut plain = Source::new(bits);
    let want = f(&mut plain);
    let n = plain.calls;
    for at in points(n) {
        let mut r = Source::new(bits);
        r.fail_at = Some(at);
        r.kind = kind;
        let res = match catch(|| f(&mut r)) {
            Ok(r) => r,
            Err(p) => panic!("{} panics when read {} of {} fails: {}", what, at, n, p),
        };
        if at < n {
            match res {
                Err(e) if is_fault(&e, kind) => {}
                e => panic!("{}: failure {:?} at read {} of {} is reported as {:?}", what, fault(kind), at, n, e),
            }
            assert!(r.calls == at && r.after_fail == 0, "{}: {} more reads after the failure at read {}", what, r.after_fail, at);
        } else {
            let same = match (&want, &res) {
                (Ok(a), Ok(b)) => a == b,
                (Err(a), Err(b)) => a.kind() == b.kind(),
                _ => false,
            };
            assert!(same, "{}: {:?} although nothing failed, expected {:?}", what, res, want);
            assert!(r.calls == n, "{}: {} reads, then {}", what, n, r.calls);
        }
    }
    n
}

/// A byte stream that moves at most `chunk` bytes at a time and fails at byte `fail`.
struct Bytes {
    bytes: Vec<u8>,
    pos: usize,
    chunk: usize,
    fail: usize,
    kind: usize,
    failed: bool,
    after: usize,
}

impl Bytes {
    fn step(&mut self, n: usize) -> Result<usize> {
        if self.failed {
            self.after += 1;
            return Err(fault(self.kind));
        }
        if self.pos == self.fail && n > 0 {
            self.failed = true;
            return Err(fault(self.kind));
        }
        Ok(n.min(self.chunk).min(self.fail - self.pos))
    }
}

impl Write for Bytes {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        let n = self.step(b.len())?;
        self.bytes.extend(&b[..n]);
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

impl Read for Bytes {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        let n = self.step(b.len())?;
        b[..n].copy_from_slice(&self.bytes[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn block<B: Blk>(s: &mut Src) -> usize {
    let v = s.bits(B::BITS);
    let be = s.bool();
    let kind = s.idx(FAULTS.len());
    let n = B::BITS / 8;
    let chunk = 1 + s.size(n);
    s.note(|| format!("{} {:#x}, {} bytes at a time (be: {})", B::NAME, v, chunk, be));
    let mut want: Vec<u8> = v.to_le_bytes()[..n].to_vec();
    if be {
        want.reverse();
    }
    for fail in 0..=n + 1 {
        let new = |bytes| Bytes { bytes, pos: 0, chunk, fail, kind, failed: false, after: 0 };
        let mut w = new(vec![]);
        let res = if be { B::of(v).write_block::<_, BigEndian>(&mut w) } else { B::of(v).write_block::<_, LittleEndian>(&mut w) };
        outcome("write_block", &w, fail, n, &res);
        assert!(w.bytes == want[..fail.min(n)], "write_block wrote {:?}, expected {:?}", w.bytes, &want[..fail.min(n)]);
        let mut long = want.clone();
        long.push(0x55);
        let mut r = new(long);
        let res = if be { B::read_block::<_, BigEndian>(&mut r) } else { B::read_block::<_, LittleEndian>(&mut r) };
        outcome("read_block", &r, fail, n, &res);
        if let Ok(x) = res {
            assert!(x.to() == v, "read_block gives {:#x}", x.to());
        }
    }
    n + 2
}

fn outcome<T: std::fmt::Debug>(what: &str, b: &Bytes, fail: usize, n: usize, res: &Result<T>) {
    if fail < n {
        match res {
            Err(e) if is_fault(e, b.kind) => {}
            e => panic!("{}: failure {:?} at byte {} of {} is reported as {:?}", what, fault(b.kind), fail, n, e),
        }
        assert!(b.after == 0, "{} carries on after the failure", what);
        assert!(b.pos == fail);
    } else {
        assert!(res.is_ok(), "{}: {:?} although nothing failed", what, res);
        assert!(b.pos == n, "{} moved {} bytes of {}", what, b.pos, n);
    }
}

fn codes_small() {
    for k in 0..codes::KINDS {
        let k = Kind(k, 3);
        let r = k.reference();
        let mut vs: Vec<u64> = (0..40).collect();
        vs.extend([1 << 20, (1 << 33) - 1, 1 << 62]);
        for v in vs {
            if v > r.max() {
                continue;
            }
            if let Enc::Bits(b) = r.encode(v) {
                encode(k, v, 0);
                for n in [b.len(), b.len() / 2] {
                    for kind in 0..FAULTS.len() {
                        decode(&b[..n], kind, &format!("{:?}", r), |s| k.decode(s));
                    }
                }
            }
        }
    }
}
