//! C11: decoding arbitrary bits is exact, bounded and honest about its end.

use common::codes::{gen_kind, gen_value, wide, Dec, Enc, Kind, Ref};
use common::io::Source;
use common::*;
use engine::{Prop, Src};
use std::collections::VecDeque;
use std::io::ErrorKind;
use succinct::bit_vec::BitVector;
use succinct::stream::{BitBuffer, BitRead};

pub const PROP: Prop = Prop {
    id: "C11",
    rule: "a bit string (random, or codewords of this or another code incl. of numbers beyond 64 bits, then \
           truncated, flipped, joined) decoded again and again by one of 25 codes until an error or the \
           end; each outcome and the bits consumed are compared with a bit-by-bit reference decoder. \
           Non-trivial: at least 8 bits, and either two codewords were decoded or the outcome was an error",
    case,
    directed: &[("every string of up to 13 bits", exhaustive), ("every truncation of every codeword", truncations)],
};

fn gen_string(s: &mut Src, r: &Ref) -> Vec<bool> {
    let mut b: Vec<bool> = vec![];
    loop {
        match s.weighted(&[4, 4, 3, 2, 1, 1]) {
            0 => {
                let v = gen_value(s, r);
                if let Enc::Bits(x) | Enc::ErrorOr(x) = r.encode(v) {
                    b.extend(x);
                }
            }
            1 => {
                // Around and beyond the top of the 64-bit range.
                let v = match s.idx(3) {
                    0 => (1u128 << 64) - 3 + s.below(6) as u128,
                    1 => (1u128 << s.range(62, 70)) + s.below(1 << 32) as u128,
                    _ => s.word() as u128 * (1 + s.below(40) as u128),
                };
                b.extend(wide(r, v));
            }
            2 => {
                let n = s.size(64);
                let w = s.word();
                mpush(&mut b, n, w);
            }
            3 => {
                let n = s.size(300);
                b.extend(gen_bits(s, n));
            }
            4 => {
                let o = gen_kind(s).reference();
                let v = gen_value(s, &o);
                if let Enc::Bits(x) | Enc::ErrorOr(x) = o.encode(v) {
                    b.extend(x);
                }
            }
            _ => {
                let k = s.size(140);
                let v = s.bool();
                b.extend(vec![v; k]);
            }
        }
        if b.len() > 4000 || !s.more(1, 2) {
            break;
        }
    }
    if !b.is_empty() && s.prob(1, 3) {
        let n = gen_pos(s, b.len());
        b.truncate(n);
    }
    if !b.is_empty() && s.prob(1, 4) {
        let i = gen_pos(s, b.len());
        b[i] = !b[i];
    }
    b
}

/// Decodes all of `bits`; returns the number of values and whether it ended in
/// an error.
fn decode_all<R: BitRead>(k: Kind, r: &Ref, bits: &[bool], src: &mut R, pos: impl Fn(&R) -> usize) -> (usize, bool) {
    let mut p = 0;
    let mut n = 0;
    loop {
        let at = p;
        let want = r.decode(bits, &mut p);
        let got = k.decode(src);
        let stop = match (&want, &got) {
            (Dec::Value(w), Ok(Some(g))) | (Dec::ValueOrError(w), Ok(Some(g))) if w == g => false,
            (Dec::ValueOrError(_), Err(_)) => true,
            (Dec::End, Ok(None)) => true,
            (Dec::Truncated, Err(e)) if e.kind() == ErrorKind::UnexpectedEof => true,
            // Not an unexpected end while there is more to read.
            (Dec::Bad, Err(e)) if e.kind() != ErrorKind::UnexpectedEof || pos(src) == bits.len() => true,
            _ => panic!("{:?} decodes the codeword at bit {} of {} to {:?}, expected {:?}", r, at, show(bits), got, want),
        };
        if let Ok(_) = got {
            let q = pos(src);
            assert!(q == p, "{:?}: decoding at bit {} of {} consumed {} bits, expected {}", r, at, show(bits), q - at, p - at);
        }
        if stop {
            return (n, got.is_err());
        }
        n += 1;
        if k.0 >= 19 && p == at {
            return (n, false);
        }
    }
}

pub fn case(s: &mut Src) {
    let k = gen_kind(s);
    let r = k.reference();
    let b = gen_string(s, &r);
    s.note(|| format!("{:?} on {}", r, show(&b)));
    let (n, err) = match s.idx(4) {
        0 | 1 => decode_all(k, &r, &b, &mut Source::new(&b), |s| s.pos),
        2 => {
            let mut q: VecDeque<bool> = b.iter().copied().collect();
            decode_all(k, &r, &b, &mut q, |q| b.len() - q.len())
        }
        _ => {
            if s.bool() {
                let mut q = BitBuffer::from(OnlyBits::<u8>::new(&b));
                decode_all(k, &r, &b, &mut q, |q| q.position() as usize)
            } else {
                use succinct::bit_vec::BitVecPush;
                let mut v: BitVector<u32> = BitVector::new();
                b.iter().for_each(|&x| v.push_bit(x));
                let mut q = BitBuffer::from(v);
                decode_all(k, &r, &b, &mut q, |q| q.position() as usize)
            }
        }
    };
    s.label_if(err, "ends in an error");
    s.label_if(n > 0, "values decoded");
    s.nontrivial_if(b.len() >= 8 && (n >= 2 || err));
}

fn kinds() -> Vec<Kind> {
    let mut v = vec![];
    for k in 0..codes::KINDS {
        for w in match k {
            5 => 2..7,
            11 | 12 | 17 | 24 => 2..4,
            19 | 20 | 21 => 1..4,
            _ => 2..3,
        } {
            v.push(Kind(k, w));
        }
    }
    v
}

fn exhaustive() {
    for k in kinds() {
        let r = k.reference();
        for n in 0..14 {
            for x in 0..1u64 << n {
                let mut b = vec![];
                mpush(&mut b, n, x);
                decode_all(k, &r, &b, &mut Source::new(&b), |s| s.pos);
            }
        }
    }
}

fn truncations() {
    let mut vs: Vec<u128> = vec![1, 2, 3, 4, 7, 8, 100, 1000, 1 << 20, 1 << 32, 1 << 40];
    for i in 0..200 {
        vs.push((1 << 64) - 100 + i);
    }
    for i in 60..72 {
        vs.extend([(1 << i) - 1, 1 << i, (1 << i) + 1]);
    }
    let (mut a, mut b) = (1u128, 2u128);
    while b < 1 << 70 {
        (a, b) = (b, a + b);
        vs.extend([b - 1, b, b + 1]);
    }
    for mut k in kinds() {
        for w in if k.0 == 5 { vec![2, 3, 4, 5, 8, 16, 31, 32, 33, 62, 63] } else { vec![k.1] } {
            k.1 = w;
            let r = k.reference();
            if r.max() <= codes::UNARY_MAX {
                continue;
            }
            for &v in &vs {
                let b = wide(&r, v);
                if v < 1 << 64 && b.len() < 2000 {
                    if let Enc::Bits(x) = r.encode(v as u64) {
                        assert!(x == b, "HARNESS: two references disagree on {} in {:?}", v, r);
                    }
                }
                for n in 0..=b.len() {
                    if n + 140 < b.len() && n > 20 {
                        continue;
                    }
                    let b = &b[..n];
                    decode_all(k, &r, b, &mut Source::new(b), |s| s.pos);
                }
            }
        }
    }
}
