//! C13: integers are written and read back in either bit order.

use common::ints::{bits_int, int_bits, read_int, write_int, TYPES};
use common::io::{Sink, Source};
use common::*;
use engine::{Prop, Src};
use std::collections::VecDeque;
use std::io::ErrorKind;
use succinct::bit_vec::{BitVec, BitVecPush, BitVector};
use succinct::stream::{BitBuffer, BitRead};

pub const PROP: Prop = Prop {
    id: "C13",
    rule: "integers of any primitive type, width (zero to the type's) and bit order written to a sink, queue \
           or bit buffer, the bits compared with the definition; then an arbitrary bit string is read as a \
           sequence of integers of any type, width and order, values, bits consumed, clean and unexpected \
           ends compared. Non-trivial: at least 2 integers of 2 or more bits were transferred",
    case,
    directed: &[("every width of every type in both orders", every_width)],
};

fn gen_int(s: &mut Src) -> (usize, bool, usize) {
    let t = s.idx(TYPES.len());
    let k = if s.prob(1, 5) { TYPES[t].1 } else { s.size(TYPES[t].1) };
    (t, s.bool(), k)
}

fn gen_value(s: &mut Src, t: usize) -> u128 {
    let w = TYPES[t].1;
    let v = if w > 64 { (s.word() as u128) << 64 | s.word() as u128 } else { s.bits(w) as u128 };
    match s.weighted(&[6, 1, 1, 1]) {
        0 => v,
        1 => u128::MAX,
        2 => 1u128 << (w - 1),
        _ => (1u128 << (w - 1)) - 1,
    }
}

pub fn case(s: &mut Src) {
    let n = if s.bool() { write(s) } else { read(s) };
    s.nontrivial_if(n >= 2);
}

fn write(s: &mut Src) -> usize {
    s.label("writing");
    let mut big = 0;
    let mut want = vec![];
    let mut ints = vec![];
    while ints.len() < 40 && s.more(9, 10) {
        let (t, be, k) = gen_int(s);
        let v = gen_value(s, t);
        s.note(|| format!("write the low {} bits of {:#x} as {}, {}", k, v, TYPES[t].0, order(be)));
        want.extend(int_bits(be, k, v));
        ints.push((t, be, k, v));
        big += (k >= 2) as usize;
    }
    macro_rules! all {
        ($w:expr) => {
            for &(t, be, k, v) in &ints {
                if let Err(e) = write_int($w, t, be, k, v) {
                    panic!("writing {} bits of a {}: {}", k, TYPES[t].0, e);
                }
            }
        };
    }
    let got: Vec<bool> = match s.idx(3) {
        0 => {
            let mut w = Sink::new(1_000_000);
            all!(&mut w);
            w.bits
        }
        1 => {
            let mut q: VecDeque<bool> = VecDeque::new();
            all!(&mut q);
            q.into()
        }
        _ => {
            let mut b: BitBuffer<BitVector<u16>> = BitBuffer::new();
            all!(&mut b);
            let b = b.into_inner();
            (0..b.bit_len()).map(|i| b.get_bit(i)).collect()
        }
    };
    assert!(got == want, "the bits written are {}, expected {}", show(&got), show(&want));
    big
}

fn order(be: bool) -> &'static str {
    if be {
        "most significant first"
    } else {
        "least significant first"
    }
}

fn read(s: &mut Src) -> usize {
    s.label("reading");
    let n = s.size(600);
    let b = gen_bits(s, n);
    s.note(|| format!("read from {}", show(&b)));
    match s.idx(3) {
        0 => read_from(s, &b, &mut Source::new(&b), |r| r.pos),
        1 => read_from(s, &b, &mut b.iter().copied().collect::<VecDeque<bool>>(), |q| n - q.len()),
        _ => {
            let mut v: BitVector<u32> = BitVector::new();
            b.iter().for_each(|&x| v.push_bit(x));
            read_from(s, &b, &mut BitBuffer::from(v), |q| q.position() as usize)
        }
    }
}

fn read_from<R: BitRead>(s: &mut Src, b: &[bool], r: &mut R, pos: impl Fn(&R) -> usize) -> usize {
    let mut p = 0;
    let mut big = 0;
    for _ in 0..60 {
        let (t, be, k) = gen_int(s);
        s.note(|| format!("read {} bits as {}, {}", k, TYPES[t].0, order(be)));
        let got = read_int(r, t, be, k);
        let left = b.len() - p;
        let what = || format!("reading {} bits as {}, {}, with {} left", k, TYPES[t].0, order(be), left);
        if k <= left {
            let want = bits_int(t, be, &b[p..p + k]);
            match got {
                Ok(Some(g)) => assert!(g == want, "{} gives {:#x}, expected {:#x}", what(), g, want),
                e => panic!("{} gives {:?}", what(), e),
            }
            p += k;
            assert!(pos(r) == p, "{} consumed {} bits", what(), pos(r) + k - p);
        } else if left == 0 {
            s.label("clean end");
            assert!(matches!(got, Ok(None)), "{} gives {:?}, expected a clean end", what(), got);
        } else {
            s.label("unexpected end");
            match got {
                Err(e) if e.kind() == ErrorKind::UnexpectedEof => {}
                e => panic!("{} gives {:?}, expected an unexpected-end error", what(), e),
            }
            return big;
        }
        big += (k >= 2) as usize;
    }
    big
}

fn every_width() {
    for t in 0..TYPES.len() {
        let w = TYPES[t].1;
        let mut vs: Vec<u128> = vec![0, 1, u128::MAX, u128::MAX - 1, 0x0123_4567_89AB_CDEF_FEDC_BA98_7654_3210];
        for i in 0..w {
            vs.extend([1u128 << i, (1u128 << i) - 1, !(1u128 << i)]);
        }
        for be in [false, true] {
            for k in 0..=w {
                for &v in &vs {
                    let mut o = Sink::new(1000);
                    write_int(&mut o, t, be, k, v).unwrap();
                    let want = int_bits(be, k, v);
                    assert!(o.bits == want, "{} bits of {:#x} as {}, {}: {}", k, v, TYPES[t].0, order(be), show(&o.bits));
                    let mut r = Source::new(&want);
                    let g = read_int(&mut r, t, be, k).unwrap();
                    let e = bits_int(t, be, &want);
                    assert!(g == Some(e), "{} as {}, {}: {:?}, expected {}", show(&want), TYPES[t].0, order(be), g, e);
                    assert!(r.pos == k);
                    // One bit short.
                    if k >= 1 {
                        let mut r = Source::new(&want[..k - 1]);
                        match read_int(&mut r, t, be, k) {
                            Ok(None) if k == 1 => {}
                            Err(e) if k > 1 && e.kind() == ErrorKind::UnexpectedEof => {}
                            e => panic!("reading {} bits from {}: {:?}", k, k - 1, e),
                        }
                    }
                }
            }
        }
    }
}
