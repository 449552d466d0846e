//! C21: blocks survive byte-level input and output in both byte orders.

use byteorder::{BigEndian, LittleEndian, NativeEndian, NetworkEndian};
use common::*;
use engine::{Prop, Src};
use std::io::{self, Cursor, Read, Write};

pub const PROP: Prop = Prop {
    id: "C21",
    rule: "1 to 40 blocks of mixed types and byte orders written to one sink (a vector, or one accepting a \
           few bytes at a time, with interruptions) and read back from a source delivering a few bytes at \
           a time, with foreign bytes in front and behind; every byte is compared with the big- or \
           little-endian digits of the value, and positions after each block; then sources and sinks \
           that are 1 byte to all bytes too short. Non-trivial: at least 3 blocks of 2 widths, with \
           bytes that differ from each other",
    case,
    directed: &[("bytes", all_bytes)],
};

/// Delivers and accepts a few bytes at a time.
struct Slow {
    data: Vec<u8>,
    pos: usize,
    room: usize,
    steps: Vec<usize>,
    turn: usize,
}

impl Slow {
    fn step(&mut self) -> io::Result<usize> {
        self.turn += 1;
        match self.steps[self.turn % self.steps.len()] {
            0 => Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted")),
            n => Ok(n),
        }
    }
}

impl Read for Slow {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let k = self.step()?.min(buf.len()).min(self.data.len() - self.pos);
        buf[..k].copy_from_slice(&self.data[self.pos..self.pos + k]);
        self.pos += k;
        Ok(k)
    }
}

impl Write for Slow {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let k = self.step()?.min(buf.len()).min(self.room - self.data.len());
        self.data.extend_from_slice(&buf[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

const ORDERS: [&str; 4] = ["big", "little", "native", "network"];

fn is_big(order: usize) -> bool {
    match order {
        0 | 3 => true,
        1 => false,
        _ => cfg!(target_endian = "big"),
    }
}

fn read<B: Blk, R: Read>(order: usize, r: &mut R) -> io::Result<u64> {
    Ok(match order {
        0 => B::read_block::<R, BigEndian>(r)?,
        1 => B::read_block::<R, LittleEndian>(r)?,
        2 => B::read_block::<R, NativeEndian>(r)?,
        _ => B::read_block::<R, NetworkEndian>(r)?,
    }
    .to())
}

fn write<B: Blk, W: Write>(order: usize, w: &mut W, x: u64) -> io::Result<()> {
    match order {
        0 => B::of(x).write_block::<W, BigEndian>(w),
        1 => B::of(x).write_block::<W, LittleEndian>(w),
        2 => B::of(x).write_block::<W, NativeEndian>(w),
        _ => B::of(x).write_block::<W, NetworkEndian>(w),
    }
}

const NAMES: [&str; 5] = ["u8", "u16", "u32", "u64", "usize"];

fn bits(t: usize) -> usize {
    [8, 16, 32, 64, usize::BITS as usize][t]
}

fn read_t<R: Read>(t: usize, order: usize, r: &mut R) -> io::Result<u64> {
    match t {
        0 => read::<u8, R>(order, r),
        1 => read::<u16, R>(order, r),
        2 => read::<u32, R>(order, r),
        3 => read::<u64, R>(order, r),
        _ => read::<usize, R>(order, r),
    }
}

fn write_t<W: Write>(t: usize, order: usize, w: &mut W, x: u64) -> io::Result<()> {
    match t {
        0 => write::<u8, W>(order, w, x),
        1 => write::<u16, W>(order, w, x),
        2 => write::<u32, W>(order, w, x),
        3 => write::<u64, W>(order, w, x),
        _ => write::<usize, W>(order, w, x),
    }
}

fn digits(t: usize, order: usize, x: u64) -> Vec<u8> {
    let n = bits(t) / 8;
    (0..n).map(|i| (x >> (8 * if is_big(order) { n - 1 - i } else { i })) as u8).collect()
}

fn slow(s: &mut Src, data: Vec<u8>, room: usize) -> Slow {
    let mut steps: Vec<usize> = (0..s.urange(1, 4)).map(|_| s.size(9)).collect();
    steps.push(1 + s.size(3));
    Slow { data, pos: 0, room, steps, turn: 0 }
}

pub fn case(s: &mut Src) {
    let n = 1 + s.size(39);
    let blocks: Vec<(usize, usize, u64)> = (0..n)
        .map(|_| {
            let t = s.idx(5);
            (t, s.idx(4), s.bits(bits(t)))
        })
        .collect();
    s.note(|| blocks.iter().map(|&(t, o, x)| format!("{} {} {:#x}", NAMES[t], ORDERS[o], x)).collect::<Vec<_>>().join(", "));
    let front: Vec<u8> = (0..s.size(5)).map(|_| s.bits(8) as u8).collect();
    let mut want = front.clone();
    for &(t, o, x) in &blocks {
        want.extend(digits(t, o, x));
    }
    s.nontrivial_if(
        n >= 3
            && blocks.iter().any(|b| bits(b.0) != bits(blocks[0].0))
            && blocks.iter().any(|&(t, o, x)| bits(t) > 8 && { let d = digits(t, o, x); d[0] != d[d.len() - 1] }),
    );

    // Writing.
    let mut plain = front.clone();
    let mut w = slow(s, front.clone(), usize::MAX);
    let mut at = front.len();
    for &(t, o, x) in &blocks {
        let what = || format!("write_block of {:#x} as {}, {} endian", x, NAMES[t], ORDERS[o]);
        let r = write_t(t, o, &mut plain, x);
        assert!(r.is_ok(), "{} fails: {:?}", what(), r);
        let r = write_t(t, o, &mut w, x);
        assert!(r.is_ok(), "{} to a slow sink fails: {:?}", what(), r);
        let d = digits(t, o, x);
        assert!(plain[at..] == d[..], "{} emits {:?}, expected {:?}", what(), &plain[at..], d);
        assert!(w.data[at..] == d[..], "{} to a slow sink emits {:?}, expected {:?}", what(), &w.data[at..], d);
        at += d.len();
    }
    assert!(plain == want && w.data == want);

    // Reading.
    let behind: Vec<u8> = (0..s.size(9)).map(|_| s.bits(8) as u8).collect();
    let mut bytes = want.clone();
    bytes.extend(&behind);
    let mut c = Cursor::new(bytes.clone());
    c.set_position(front.len() as u64);
    let mut r = slow(s, bytes.clone(), 0);
    r.pos = front.len();
    let mut rest: &[u8] = &bytes[front.len()..];
    let mut at = front.len();
    for &(t, o, x) in &blocks {
        at += bits(t) / 8;
        let what = || format!("read_block of {} from {:?}, {} endian", NAMES[t], digits(t, o, x), ORDERS[o]);
        for (from, got) in [
            ("a cursor", read_t(t, o, &mut c)),
            ("a slow source", read_t(t, o, &mut r)),
            ("a slice", read_t(t, o, &mut rest)),
        ] {
            match got {
                Ok(g) => assert!(g == x, "{} ({}) gives {:#x}, expected {:#x}", what(), from, g, x),
                Err(e) => panic!("{} ({}) fails: {}", what(), from, e),
            }
        }
        assert!(c.position() == at as u64, "{}: position is {}, expected {}", what(), c.position(), at);
        assert!(r.pos == at, "{}: {} bytes consumed, expected {}", what(), r.pos, at);
        assert!(rest.len() == bytes.len() - at, "{}: {} bytes left, expected {}", what(), rest.len(), bytes.len() - at);
    }

    // Too short.
    let (t, o, x) = blocks[n - 1];
    let d = digits(t, o, x);
    let k = s.idx(d.len());
    s.note(|| format!("last block with {} of {} bytes", k, d.len()));
    let what = || format!("{} as {}, {} endian, with {} of {} bytes", x, NAMES[t], ORDERS[o], k, d.len());
    let g = read_t(t, o, &mut &d[..k]);
    assert!(g.is_err(), "read_block {} gives {:?}", what(), g);
    let mut r = slow(s, d[..k].to_vec(), 0);
    let g = read_t(t, o, &mut r);
    assert!(g.is_err(), "read_block {} gives {:?}", what(), g);
    let mut room = [0u8; 8];
    let g = write_t(t, o, &mut &mut room[..k], x);
    assert!(g.is_err(), "write_block {} gives {:?}", what(), g);
    let mut w = slow(s, vec![], k);
    let g = write_t(t, o, &mut w, x);
    assert!(g.is_err(), "write_block {} gives {:?}", what(), g);
    assert!(d.starts_with(&w.data), "write_block {} leaves {:?}, expected a part of {:?}", what(), w.data, d);
}

/// Every byte value at every place of every type.
fn all_bytes() {
    for t in 0..5 {
        for o in 0..4 {
            for i in 0..bits(t) / 8 {
                for b in 0..256u64 {
                    for base in [0, u64::MAX, 0x0123_4567_89AB_CDEF] {
                        let x = (base & !(0xFF << (8 * i)) | b << (8 * i)) & low(bits(t));
                        let mut v = vec![];
                        write_t(t, o, &mut v, x).unwrap();
                        assert!(v == digits(t, o, x), "{} {} {:#x} becomes {:?}", NAMES[t], ORDERS[o], x, v);
                        let mut r = &v[..];
                        let y = read_t(t, o, &mut r).unwrap();
                        assert!(y == x && r.is_empty(), "{} {} {:#x} becomes {:#x}", NAMES[t], ORDERS[o], x, y);
                    }
                }
            }
        }
    }
}
