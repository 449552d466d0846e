//! C14: a bit buffer behaves like a seekable file of bits.

use common::codes::{gen_kind, gen_value, Dec, Enc};
use common::ints::{bits_int, int_bits, read_int, write_int, TYPES};
use common::*;
use engine::{catch, Prop, Src};
use std::fmt::Debug;
use succinct::bit_vec::{BitVec, BitVecMut, BitVecPush, BitVector};
use succinct::int_vec::IntVector;
use succinct::stream::{BitBuffer, BitRead, BitWrite};

pub const PROP: Prop = Prop {
    id: "C14",
    rule: "a history of up to 80 operations (single bits, integers, coded values, seeks inside and beyond, \
           direct bit, span and block accesses, reopening for reading or appending, cloning) on one bit \
           buffer over a growable vector (any block type, also user-defined) or a read-only one, next to \
           a list of bits with a position; results, position and contents are compared after every step. \
           Non-trivial: at least one write, one seek and one read, over 16 bits",
    case,
    directed: &[("every short history", every_history)],
};

struct F {
    m: Vec<bool>,
    pos: usize,
    did: [bool; 3],
    longest: usize,
}

pub fn case(s: &mut Src) {
    with_any_block!(s, block(s))
}

fn block<B: Blk>(s: &mut Src) {
    let n = if s.prob(1, 4) { 0 } else { gen_len_big(s, 3000, 1 << 20, 6000) };
    let m = gen_bits(s, n);
    let junk = s.word();
    let mut f = F { m: vec![], pos: 0, did: [false; 3], longest: 0 };
    match s.idx(6) {
        5 => open::<u8, _>(s, &mut f, m.clone(), m),
        0 => {
            s.note(|| format!("BitBuffer::<BitVector<{}>>::new()", B::NAME));
            let b = if s.bool() { BitBuffer::new() } else { BitBuffer::with_capacity(s.size(500) as u64) };
            history::<B, BitVector<B>>(s, &mut f, b)
        }
        1 | 2 => {
            let mut v: BitVector<B> = BitVector::new();
            m.iter().for_each(|&b| v.push_bit(b));
            open(s, &mut f, v, m)
        }
        3 => open(s, &mut f, OnlyBits::<B>::new(&m), m),
        _ => {
            if s.bool() {
                open(s, &mut f, OnlyBlocks::<B>::new(&m, junk), m)
            } else {
                read_only::<B>(s, &mut f, m)
            }
        }
    }
    s.label_if(f.longest > 1000, "over 1000 bits");
    s.nontrivial_if(f.did == [true; 3] && f.longest > 16);
}

fn open<B: Blk, V: BitVec<Block = B> + BitVecMut + BitVecPush + Clone + Debug>(s: &mut Src, f: &mut F, v: V, m: Vec<bool>) {
    let app = s.bool();
    s.note(|| format!("{} {}, blocks of {}", if app { "append to" } else { "from" }, show(&m), B::NAME));
    f.pos = if app { m.len() } else { 0 };
    f.m = m;
    history(s, f, if app { BitBuffer::append(v) } else { BitBuffer::from(v) })
}

fn check<B: Blk, V: BitVec<Block = B>>(what: &str, b: &BitBuffer<V>, f: &F, s: &mut Src) {
    assert!(b.position() == f.pos as u64, "{}: position is {}, expected {}", what, b.position(), f.pos);
    check_quick(what, b, &f.m, s);
    check_quick(what, b.inner(), &f.m, s);
}

fn history<B: Blk, V: BitVec<Block = B> + BitVecMut + BitVecPush + Clone>(s: &mut Src, f: &mut F, mut b: BitBuffer<V>) {
    check("new", &b, f, s);
    let w = s.swarm(&[4, 4, 3, 3, 3, 3, 5, 3, 1, 2]);
    let steps = if s.thorough { 200 } else { 80 };
    for _ in 0..steps {
        if !s.more(25, 26) {
            break;
        }
        let op = s.weighted(&w);
        let name = match op {
            1 => {
                let n = 1 + s.size(20);
                let x = s.word();
                s.note(|| format!("write {} bits of {:#x}", n, x));
                for i in 0..n {
                    let v = x >> i & 1 == 1;
                    ok("write_bit", b.write_bit(v));
                    put(f, &[v]);
                }
                "write_bit"
            }
            3 => {
                let t = s.idx(TYPES.len());
                let (k, be) = (s.size(TYPES[t].1), s.bool());
                let v = s.bits(TYPES[t].1.min(64)) as u128;
                s.note(|| format!("write {} bits of {:#x} as {} (be: {})", k, v, TYPES[t].0, be));
                ok("write_int", write_int(&mut b, t, be, k, v));
                put(f, &int_bits(be, k, v));
                "write_int"
            }
            5 => {
                let k = gen_kind(s);
                let r = k.reference();
                let v = gen_value(s, &r).min(1 << 60);
                s.note(|| format!("encode {} in {:?}", v, r));
                if r.max() > 1000 || v < 400 {
                    if let Enc::Bits(x) = r.encode(v) {
                        ok("encode", k.encode(&mut b, v));
                        put(f, &x);
                    }
                }
                "encode"
            }
            7 => {
                write_some(&mut b, &mut f.m, s);
                "direct write"
            }
            8 => {
                let app = s.bool();
                s.note(|| format!("into_inner and {}", if app { "append" } else { "from" }));
                let v = b.into_inner();
                check_quick("into_inner", &v, &f.m, s);
                f.pos = if app { f.m.len() } else { 0 };
                b = if app { BitBuffer::append(v) } else { BitBuffer::from(v) };
                "reopened"
            }
            9 => {
                s.note(|| "carry on with a clone".into());
                b = b.clone();
                "clone"
            }
            _ => read_step(s, f, &mut b, op),
        };
        f.longest = f.longest.max(f.m.len());
        s.label(name);
        check(name, &b, f, s);
    }
    s.note(|| "final checks".into());
    check_reads("buffer", &b, &f.m, s);
    let v = b.into_inner();
    check_reads("into_inner", &v, &f.m, s);
}

fn read_only<B: Blk>(s: &mut Src, f: &mut F, m: Vec<bool>) {
    s.label("read-only");
    s.note(|| format!("read-only, {}", show(&m)));
    let k = gen_width(s, B::BITS);
    let n = m.len() / k;
    let mut v: IntVector<B> = IntVector::new(k);
    (0..n).for_each(|i| v.push(B::of(mget(&m, i * k, k))));
    f.m = m[..n * k].to_vec();
    let mut b = BitBuffer::from(v);
    for _ in 0..20 {
        let op = s.weighted(&[4, 0, 3, 0, 3, 0, 5]);
        let name = read_step(s, f, &mut b, op);
        f.longest = f.m.len();
        f.did[1] = true;
        check(name, &b, f, s);
    }
}

fn ok<T>(what: &str, r: std::io::Result<T>) -> T {
    match r {
        Ok(x) => x,
        Err(e) => panic!("{} fails: {}", what, e),
    }
}

fn put(f: &mut F, bits: &[bool]) {
    for &v in bits {
        if f.pos < f.m.len() {
            f.m[f.pos] = v;
        } else {
            f.m.push(v);
        }
        f.pos += 1;
    }
    f.did[1] = true;
}

fn read_step<B: Blk, V: BitVec<Block = B>>(s: &mut Src, f: &mut F, b: &mut BitBuffer<V>, op: usize) -> &'static str {
    let n = f.m.len();
    match op {
        0 => {
            let c = 1 + s.size(20);
            s.note(|| format!("read {} bits", c));
            for _ in 0..c {
                let want = f.m.get(f.pos).copied();
                let got = ok("read_bit", b.read_bit());
                assert!(got == want, "read_bit at {} gives {:?}, expected {:?}", f.pos, got, want);
                f.pos += want.is_some() as usize;
            }
            f.did[2] = true;
            "read_bit"
        }
        2 => {
            let t = s.idx(TYPES.len());
            let (k, be) = (s.size(TYPES[t].1), s.bool());
            s.note(|| format!("read {} bits as {} (be: {})", k, TYPES[t].0, be));
            let got = read_int(b, t, be, k);
            let left = n - f.pos;
            if k <= left {
                let want = bits_int(t, be, &f.m[f.pos..f.pos + k]);
                let got = ok("read_int", got);
                assert!(got == Some(want), "read_int of {} bits at {} gives {:?}, expected {}", k, f.pos, got, want);
                f.pos += k;
            } else if left == 0 {
                assert!(matches!(got, Ok(None)), "read_int at the end gives {:?}", got);
            } else {
                assert!(got.is_err(), "read_int of {} bits with {} left gives {:?}", k, left, got);
                resume(f, b);
            }
            f.did[2] = true;
            "read_int"
        }
        4 => {
            let k = gen_kind(s);
            let r = k.reference();
            s.note(|| format!("decode {:?} at {}", r, f.pos));
            let mut p = f.pos;
            let want = r.decode(&f.m, &mut p);
            let got = k.decode(b);
            match (&want, &got) {
                (Dec::Value(w), Ok(Some(g))) | (Dec::ValueOrError(w), Ok(Some(g))) if w == g => f.pos = p,
                (Dec::End, Ok(None)) => {}
                (Dec::Truncated, Err(_)) | (Dec::Bad, Err(_)) | (Dec::ValueOrError(_), Err(_)) => resume(f, b),
                _ => panic!("decoding {:?} at {} gives {:?}, expected {:?}", r, f.pos, got, want),
            }
            f.did[2] = true;
            "decode"
        }
        _ => {
            let p = match s.weighted(&[6, 1, 1, 1]) {
                0 => s.size(n) as u64,
                1 => n as u64,
                2 => n as u64 + 1 + s.size(70) as u64,
                _ => u64::MAX - s.word().min(u64::MAX - n as u64 - 1),
            };
            s.note(|| format!("seek to {} of {}", p, n));
            let r = catch(|| b.seek(p));
            match r {
                Ok(Ok(())) if p <= n as u64 => f.pos = p as usize,
                Ok(Err(_)) if p > n as u64 => {}
                r => panic!("seek to {} of {} gives {:?}", p, n, r),
            }
            f.did[0] = true;
            "seek"
        }
    }
}

/// After a failed read the position is somewhere from where it was to the end.
fn resume<V: BitVec>(f: &mut F, b: &BitBuffer<V>) {
    let p = b.position();
    assert!(p >= f.pos as u64 && p <= f.m.len() as u64, "position after a failed read is {}, was {}", p, f.pos);
    f.pos = p as usize;
}

/// Every history of up to five steps from a few beginnings.
fn every_history() {
    fn go<V: BitVecPush + Clone>(v: &BitBuffer<V>, m: &[bool], pos: usize, left: usize, path: &mut Vec<u8>) {
        assert!(v.position() == pos as u64, "after {:?}: position {}, expected {}", path, v.position(), pos);
        assert!(v.bit_len() == m.len() as u64, "after {:?}: {} bits, expected {}", path, v.bit_len(), m.len());
        for i in 0..m.len() {
            assert!(v.inner().get_bit(i as u64) == m[i] && v.get_bit(i as u64) == m[i], "after {:?}: bit {}, expected {}", path, i, show(m));
        }
        if left == 0 {
            return;
        }
        for op in 0..9u8 {
            let (mut v, mut m, mut pos) = (v.clone(), m.to_vec(), pos);
            path.push(op);
            match op {
                0 | 1 => {
                    v.write_bit(op == 1).unwrap();
                    if pos == m.len() {
                        m.push(op == 1);
                    }
                    m[pos] = op == 1;
                    pos += 1;
                }
                2 => {
                    let want = m.get(pos).copied();
                    let got = v.read_bit().unwrap();
                    assert!(got == want, "after {:?}: read_bit gives {:?}, expected {:?}", path, got, want);
                    pos += want.is_some() as usize;
                }
                3 => {
                    v.write_int(5, 0b01011u8).unwrap();
                    for i in 0..5 {
                        let b = 0b01011 >> i & 1 == 1;
                        if pos == m.len() {
                            m.push(b);
                        }
                        m[pos] = b;
                        pos += 1;
                    }
                }
                4 => {
                    let rest = &m[pos..];
                    let r = v.read_int_be::<u64>(7);
                    match rest.len() {
                        0 => assert!(matches!(r, Ok(None)), "after {:?}: read_int_be at the end", path),
                        1..=6 => {
                            assert!(r.is_err(), "after {:?}: read_int_be of too few bits", path);
                            pos = m.len();
                        }
                        _ => {
                            let want = rest[..7].iter().fold(0, |x, &b| x << 1 | b as u64);
                            assert!(matches!(r, Ok(Some(x)) if x == want), "after {:?}: read_int_be", path);
                            pos += 7;
                        }
                    }
                }
                5 | 6 | 7 => {
                    let to = [0, m.len() / 2, m.len()][op as usize - 5];
                    assert!(v.seek(to as u64).is_ok(), "after {:?}: seek({}) of {} bits fails", path, to, m.len());
                    pos = to;
                }
                _ => assert!(v.seek(m.len() as u64 + 1).is_err(), "after {:?}: a seek beyond the end succeeds", path),
            }
            go(&v, &m, pos, left - 1, path);
            path.pop();
        }
    }
    fn begin<V: BitVecPush + Clone>(empty: V, n: usize, steps: usize) {
        let m: Vec<bool> = (0..n).map(|i| i % 3 != 1).collect();
        let mut v = empty;
        m.iter().for_each(|&b| v.push_bit(b));
        go(&BitBuffer::from(v.clone()), &m, 0, steps, &mut vec![]);
        go(&BitBuffer::append(v), &m, n, steps, &mut vec![]);
    }
    for n in [0, 1, 3, 7, 8] {
        begin(BitVector::<u8>::new(), n, 5);
        begin(Vec::<bool>::new(), n, 4);
    }
    begin(BitVector::<u8>::new(), 2, 7);
    for n in [15, 16, 60] {
        begin(BitVector::<u16>::new(), n, 4);
        begin(BitVector::<u64>::new(), n, 4);
        begin(BitVector::<Own>::new(), n, 3);
    }
}
