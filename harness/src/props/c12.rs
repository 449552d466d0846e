//! C12: each code writes exactly its defined codeword.

use common::codes::{gen_kind, gen_value, Enc, Kind, Ref};
use common::io::Sink;
use common::*;
use engine::{catch, Prop, Src};
use std::collections::VecDeque;
use succinct::bit_vec::{BitVec, BitVecPush, BitVector};
use succinct::stream::BitBuffer;

pub const PROP: Prop = Prop {
    id: "C12",
    rule: "a value (biased to zero, powers of two, of comma bases, Fibonacci numbers, the maximum) written \
           in one of 25 codes to a sink, queue or bit buffer that may already hold bits; the bits written \
           are compared with the codeword computed by an independent definition, and values without a \
           codeword must be refused with nothing written. Non-trivial: the codeword has at least 4 bits, \
           or there is none",
    case,
    directed: &[("every value up to 2000 and all boundaries in every code", sweep)],
};

fn check(k: Kind, r: &Ref, v: u64, before: &[bool], after: &[bool], res: Result<std::io::Result<()>, String>) -> usize {
    assert!(after.len() >= before.len() && after[..before.len()] == *before, "{:?} of {} changed earlier bits", r, v);
    let new = &after[before.len()..];
    let want = r.encode(v);
    match (&want, &res) {
        (Enc::Bits(b), Ok(Ok(()))) | (Enc::ErrorOr(b), Ok(Ok(()))) => {
            assert!(new == &b[..], "{:?} writes {} as {}, its codeword is {}", r, v, show(new), show(b));
        }
        (Enc::ErrorOr(_), Ok(Err(_))) | (Enc::Error, Ok(Err(_))) | (Enc::Zero, Err(_)) | (Enc::Zero, Ok(Err(_))) => {
            assert!(new.is_empty(), "{:?} refuses {} but writes {}", r, v, show(new));
        }
        (Enc::Bits(_), Ok(Err(e))) => panic!("{:?} ({:?}) refuses {}: {}", r, k, v, e),
        (_, Err(p)) => panic!("{:?} panics on {}: {}", r, v, p),
        (_, Ok(Ok(()))) => panic!("{:?} has no codeword for {}, but writes {}", r, v, show(new)),
    }
    match want {
        Enc::Bits(b) => b.len(),
        _ => 64,
    }
}

pub fn case(s: &mut Src) {
    let k = gen_kind(s);
    let r = k.reference();
    let v = match s.weighted(&[1, 1, 12]) {
        0 => s.below(2),
        1 if r.max() == u64::MAX => u64::MAX - s.below(2),
        _ => gen_value(s, &r),
    };
    let n = if s.bool() { 0 } else { gen_len_big(s, 70, 1 << 18, 5000) };
    let before = gen_bits(s, n);
    s.note(|| format!("{} in {:?} after {}", v, r, show(&before)));
    let bits = match s.idx(4) {
        0 | 1 => {
            let mut w = Sink::new(1_000_000);
            w.bits = before.clone();
            let res = catch(|| k.encode(&mut w, v));
            check(k, &r, v, &before, &w.bits, res)
        }
        2 => {
            let mut q: VecDeque<bool> = before.iter().copied().collect();
            let res = catch(|| k.encode(&mut q, v));
            let after: Vec<bool> = q.into_iter().collect();
            check(k, &r, v, &before, &after, res)
        }
        _ => with_block!(s, buffer(k, &r, v, &before)),
    };
    s.label_if(bits > 64, "codeword over 64 bits");
    s.nontrivial_if(bits >= 4);
}

fn buffer<B: Blk>(k: Kind, r: &Ref, v: u64, before: &[bool]) -> usize {
    let mut b: BitVector<B> = BitVector::new();
    before.iter().for_each(|&x| b.push_bit(x));
    let mut b = BitBuffer::append(b);
    let res = catch(|| k.encode(&mut b, v));
    let b = b.into_inner();
    let after: Vec<bool> = (0..b.bit_len()).map(|i| b.get_bit(i)).collect();
    check(k, r, v, before, &after, res)
}

fn sweep() {
    let mut vs: Vec<u64> = (0..2001).collect();
    for i in 0..64 {
        vs.extend([(1u64 << i) - 1, 1 << i, (1 << i) + 1, u64::MAX - (1 << i), u64::MAX - i]);
    }
    let (mut a, mut b) = (1u64, 2u64);
    while let Some(c) = a.checked_add(b) {
        (a, b) = (b, c);
        vs.extend([c - 1, c, c.saturating_add(1)]);
    }
    for k in 0..codes::KINDS {
        let ws: Vec<u8> = match k {
            5 => (2..64).collect(),
            11 | 12 | 17 | 19 | 20 | 21 | 24 => vec![2, 3, 4, 5, 8],
            _ => vec![2],
        };
        for w in ws {
            let mut vs = vs.clone();
            if let 5 | 11 = k {
                let mut p = 1u64;
                while let Some(q) = p.checked_mul(low(w as usize)) {
                    p = q;
                    vs.extend([p - 1, p, p.saturating_add(1)]);
                }
            }
            let k = Kind(k, w);
            let r = k.reference();
            for &v in &vs {
                if r.max() <= codes::UNARY_MAX && v > r.max() && !matches!(r, Ref::Fixed(_)) {
                    continue;
                }
                let mut o = Sink::new(100_000);
                let res = catch(|| k.encode(&mut o, v));
                check(k, &r, v, &[], &o.bits, res);
            }
        }
    }
}
