//! Reference definitions of the universal codes, over plain bit lists.

use engine::Src;
use std::io::{Error, ErrorKind, Result};
use succinct::coding::*;
use succinct::stream::{BitRead, BitWrite};

/// Bound on values encoded in unary, to bound the work.
pub const UNARY_MAX: u64 = 5000;

#[derive(Clone, Debug, PartialEq)]
pub enum Ref {
    Unary,
    Elias(Box<Ref>),
    Omega,
    Fib,
    Comma(u8),
    Lift(Box<Ref>),
    Fixed(u8),
}

/// What encoding must do.
#[derive(Clone, Debug, PartialEq)]
pub enum Enc {
    Bits(Vec<bool>),
    /// No codeword: rejected by a panic, nothing written.
    Zero,
    /// No codeword: an error, nothing written.
    Error,
    /// Fibonacci at the top of the range: an error, or this codeword.
    ErrorOr(Vec<bool>),
}

/// What decoding must do.
#[derive(Clone, Debug, PartialEq)]
pub enum Dec {
    Value(u64),
    /// A value the decoder may also give up on (top of the Fibonacci range).
    ValueOrError(u64),
    End,
    /// Must be an unexpected-end error.
    Truncated,
    /// Must be an error, of any kind.
    Bad,
}

/// Largest Fibonacci number below 2^64.
pub const FIB_MAX: u64 = 12_200_160_415_121_876_738;

fn lsb(out: &mut Vec<bool>, k: usize, v: u64) {
    for i in 0..k {
        out.push(v >> i & 1 == 1);
    }
}

fn fibs() -> Vec<u64> {
    let mut f = vec![1u64, 2];
    loop {
        let n = f.len();
        match f[n - 1].checked_add(f[n - 2]) {
            Some(x) => f.push(x),
            None => return f,
        }
    }
}

impl Ref {
    pub fn gamma() -> Ref {
        Ref::Elias(Box::new(Ref::Unary))
    }
    pub fn delta() -> Ref {
        Ref::Elias(Box::new(Ref::lift(Ref::gamma())))
    }
    pub fn elias(h: Ref) -> Ref {
        Ref::Elias(Box::new(h))
    }
    pub fn lift(c: Ref) -> Ref {
        Ref::Lift(Box::new(c))
    }

    /// Smallest value with a codeword.
    pub fn min(&self) -> u64 {
        match self {
            Ref::Unary | Ref::Comma(_) | Ref::Fixed(_) => 0,
            Ref::Omega | Ref::Fib => 1,
            Ref::Elias(h) => {
                let m = h.min();
                if m < 64 {
                    1 << m
                } else {
                    u64::MAX
                }
            }
            Ref::Lift(c) => c.min().saturating_sub(1),
        }
    }

    /// Largest value the checks encode (bounded for unary).
    pub fn max(&self) -> u64 {
        match self {
            Ref::Unary => UNARY_MAX,
            Ref::Lift(c) if c.max() == u64::MAX => u64::MAX,
            Ref::Lift(c) => c.max() - 1,
            Ref::Fixed(k) => crate::low(*k as usize),
            _ => u64::MAX,
        }
    }

    pub fn encode(&self, v: u64) -> Enc {
        match self {
            Ref::Unary => {
                let mut o = vec![false; v as usize];
                o.push(true);
                Enc::Bits(o)
            }
            Ref::Fixed(k) => {
                if v > crate::low(*k as usize) {
                    Enc::Error
                } else {
                    let mut o = Vec::new();
                    lsb(&mut o, *k as usize, v);
                    Enc::Bits(o)
                }
            }
            Ref::Elias(h) => {
                if v == 0 {
                    return Enc::Zero;
                }
                let n = 63 - v.leading_zeros();
                match h.encode(n as u64) {
                    Enc::Bits(mut o) => {
                        lsb(&mut o, n as usize, v);
                        Enc::Bits(o)
                    }
                    e => e,
                }
            }
            Ref::Omega => {
                if v == 0 {
                    return Enc::Zero;
                }
                let mut groups = Vec::new();
                let mut n = v;
                while n > 1 {
                    let k = 64 - n.leading_zeros();
                    groups.push((n, k));
                    n = k as u64 - 1;
                }
                let mut o = Vec::new();
                for (n, k) in groups.into_iter().rev() {
                    for i in (0..k).rev() {
                        o.push(n >> i & 1 == 1);
                    }
                }
                o.push(false);
                Enc::Bits(o)
            }
            Ref::Fib => {
                if v == 0 {
                    return Enc::Zero;
                }
                let f = fibs();
                let top = f.iter().rposition(|&x| x <= v).unwrap();
                let mut o = vec![false; top + 1];
                let mut rest = v;
                for i in (0..=top).rev() {
                    if f[i] <= rest {
                        rest -= f[i];
                        o[i] = true;
                    }
                }
                o.push(true);
                if v >= FIB_MAX {
                    Enc::ErrorOr(o)
                } else {
                    Enc::Bits(o)
                }
            }
            Ref::Comma(w) => {
                let base = crate::low(*w as usize);
                let mut digits = Vec::new();
                let mut n = v;
                while n > 0 {
                    digits.push(n % base);
                    n /= base;
                }
                let mut o = Vec::new();
                for &d in digits.iter().rev() {
                    lsb(&mut o, *w as usize, d);
                }
                lsb(&mut o, *w as usize, base);
                Enc::Bits(o)
            }
            Ref::Lift(c) => match v.checked_add(1) {
                Some(n) => c.encode(n),
                None => Enc::Error,
            },
        }
    }

    /// Decodes the codeword at `*pos`, leaving `*pos` after it.
    pub fn decode(&self, bits: &[bool], pos: &mut usize) -> Dec {
        if *pos == bits.len() {
            return Dec::End;
        }
        let mut next = || {
            let b = bits.get(*pos).copied();
            if b.is_some() {
                *pos += 1;
            }
            b
        };
        match self {
            Ref::Unary => {
                let mut n = 0;
                while let Some(b) = next() {
                    if b {
                        return Dec::Value(n);
                    }
                    n += 1;
                }
                Dec::Truncated
            }
            Ref::Fixed(k) => {
                let mut n = 0;
                for i in 0..*k {
                    match next() {
                        None => return Dec::Truncated,
                        Some(b) => n |= (b as u64) << i,
                    }
                }
                Dec::Value(n)
            }
            Ref::Elias(h) => {
                let n = match h.decode(bits, pos) {
                    Dec::Value(n) => n,
                    Dec::ValueOrError(_) => return Dec::Bad,
                    e => return e,
                };
                if n > 63 {
                    return Dec::Bad;
                }
                let mut v = 1u64 << n;
                for i in 0..n {
                    match bits.get(*pos) {
                        None => return Dec::Truncated,
                        Some(&b) => {
                            *pos += 1;
                            v |= (b as u64) << i
                        }
                    }
                }
                Dec::Value(v)
            }
            Ref::Omega => {
                let mut n: u64 = 1;
                loop {
                    match next() {
                        None => return Dec::Truncated,
                        Some(false) => return Dec::Value(n),
                        Some(true) => {
                            if n > 63 {
                                return Dec::Bad;
                            }
                            let mut m = 1;
                            for _ in 0..n {
                                match next() {
                                    None => return Dec::Truncated,
                                    Some(b) => m = m << 1 | b as u64,
                                }
                            }
                            n = m;
                        }
                    }
                }
            }
            Ref::Fib => {
                let f = fibs();
                let mut sum: u128 = 0;
                let mut prev = false;
                let mut i = 0;
                loop {
                    match next() {
                        None if i >= 90 => return Dec::Bad,
                        None => return Dec::Truncated,
                        Some(true) if prev => break,
                        Some(b) => {
                            prev = b;
                            if b {
                                match f.get(i) {
                                    Some(&x) => sum += x as u128,
                                    None => sum = u128::MAX / 2,
                                }
                            }
                            i += 1;
                            if i > 200 {
                                return Dec::Bad;
                            }
                        }
                    }
                }
                if sum > u64::MAX as u128 {
                    Dec::Bad
                } else if sum >= FIB_MAX as u128 {
                    Dec::ValueOrError(sum as u64)
                } else {
                    Dec::Value(sum as u64)
                }
            }
            Ref::Comma(w) => {
                let base = crate::low(*w as usize);
                let mut v: Option<u64> = Some(0);
                loop {
                    let mut d = 0;
                    for i in 0..*w {
                        match next() {
                            None if v.is_none() => return Dec::Bad,
                            None => return Dec::Truncated,
                            Some(b) => d |= (b as u64) << i,
                        }
                    }
                    if d == base {
                        return match v {
                            Some(v) => Dec::Value(v),
                            None => Dec::Bad,
                        };
                    }
                    v = v.and_then(|v| v.checked_mul(base)).and_then(|v| v.checked_add(d));
                }
            }
            Ref::Lift(c) => match c.decode(bits, pos) {
                Dec::Value(0) => Dec::Bad,
                Dec::Value(n) => Dec::Value(n - 1),
                Dec::ValueOrError(n) => Dec::ValueOrError(n - 1),
                e => e,
            },
        }
    }
}

/// The codeword a code would give to a number that may exceed 64 bits.
pub fn wide(r: &Ref, v: u128) -> Vec<bool> {
    let mut o = Vec::new();
    match r {
        Ref::Unary => {
            o = vec![false; v.min(UNARY_MAX as u128) as usize];
            o.push(true);
        }
        Ref::Fixed(k) => lsb(&mut o, *k as usize, v as u64),
        Ref::Elias(h) => {
            let n = 127 - v.max(1).leading_zeros();
            o = wide(h, n as u128);
            for i in 0..n {
                o.push(v >> i & 1 == 1);
            }
        }
        Ref::Omega => {
            let mut groups = Vec::new();
            let mut n = v;
            while n > 1 {
                let k = 128 - n.leading_zeros();
                groups.push((n, k));
                n = k as u128 - 1;
            }
            for (n, k) in groups.into_iter().rev() {
                for i in (0..k).rev() {
                    o.push(n >> i & 1 == 1);
                }
            }
            o.push(false);
        }
        Ref::Fib => {
            let mut f = vec![1u128, 2];
            while f[f.len() - 1] <= v {
                f.push(f[f.len() - 1] + f[f.len() - 2]);
            }
            let top = f.iter().rposition(|&x| x <= v.max(1)).unwrap();
            o = vec![false; top + 1];
            let mut rest = v.max(1);
            for i in (0..=top).rev() {
                if f[i] <= rest {
                    rest -= f[i];
                    o[i] = true;
                }
            }
            o.push(true);
        }
        Ref::Comma(w) => {
            let base = crate::low(*w as usize) as u128;
            let mut digits = Vec::new();
            let mut n = v;
            while n > 0 {
                digits.push((n % base) as u64);
                n /= base;
            }
            for &d in digits.iter().rev() {
                lsb(&mut o, *w as usize, d);
            }
            lsb(&mut o, *w as usize, base as u64);
        }
        Ref::Lift(c) => return wide(c, v + 1),
    }
    o
}

/// A user-defined code: `k` bits, least significant first.
pub struct Fixed(pub u8);

impl UniversalCode for Fixed {
    fn encode<W: BitWrite>(&self, sink: &mut W, value: u64) -> Result<()> {
        if value > crate::low(self.0 as usize) {
            return Err(Error::new(ErrorKind::InvalidInput, "Fixed: too big"));
        }
        for i in 0..self.0 {
            sink.write_bit(value >> i & 1 == 1)?;
        }
        Ok(())
    }
    fn decode<R: BitRead>(&self, source: &mut R) -> Result<Option<u64>> {
        let mut n = 0;
        for i in 0..self.0 {
            match source.read_bit()? {
                Some(b) => n |= (b as u64) << i,
                None if i == 0 => return Ok(None),
                None => return Err(Error::new(ErrorKind::UnexpectedEof, "Fixed")),
            }
        }
        Ok(Some(n))
    }
}

/// Calls the visitor with a code and its reference definition.
pub trait Visit {
    type Out;
    fn visit<C: UniversalCode>(&mut self, c: &C, r: &Ref) -> Self::Out;
}

pub const KINDS: usize = 25;

/// A code: its number in the list below, and a digit width for comma codes
/// and fixed ones.
#[derive(Clone, Copy, Debug)]
pub struct Kind(pub usize, pub u8);

pub fn gen_kind(s: &mut Src) -> Kind {
    let k = s.weighted(&[2, 4, 4, 4, 4, 4, 2, 3, 3, 3, 3, 3, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1]);
    let w = match k {
        5 | 11 | 12 | 17 | 24 => {
            if s.bool() {
                s.range(2, 9) as u8
            } else {
                s.range(2, 63) as u8
            }
        }
        19 | 20 | 21 => s.range(1, 64) as u8,
        _ => 2,
    };
    Kind(k, w)
}

impl Kind {
    pub fn with<V: Visit>(self, v: &mut V) -> V::Out {
        let w = self.1;
        use Ref as R;
        match self.0 {
            0 => v.visit(&Unary, &R::Unary),
            1 => v.visit(&GAMMA, &R::gamma()),
            2 => v.visit(&DELTA, &R::delta()),
            3 => v.visit(&Omega, &R::Omega),
            4 => v.visit(&Fibonacci, &R::Fib),
            5 => {
                if w == 2 {
                    v.visit(&COMMA, &R::Comma(2))
                } else {
                    v.visit(&Comma(w), &R::Comma(w))
                }
            }
            6 => v.visit(&Lift0(Unary), &R::lift(R::Unary)),
            7 => v.visit(&Lift0(GAMMA), &R::lift(R::gamma())),
            8 => v.visit(&Lift0(DELTA), &R::lift(R::delta())),
            9 => v.visit(&Lift0(Omega), &R::lift(R::Omega)),
            10 => v.visit(&Lift0(Fibonacci), &R::lift(R::Fib)),
            11 => v.visit(&Lift0(Comma(w)), &R::lift(R::Comma(w))),
            12 => v.visit(&Elias(Comma(w)), &R::elias(R::Comma(w))),
            13 => v.visit(&Elias(Lift0(Omega)), &R::elias(R::lift(R::Omega))),
            14 => v.visit(&Elias(Lift0(Fibonacci)), &R::elias(R::lift(R::Fib))),
            15 => v.visit(&Elias(Lift0(DELTA)), &R::elias(R::lift(R::delta()))),
            16 => v.visit(&Lift0(Lift0(GAMMA)), &R::lift(R::lift(R::gamma()))),
            17 => v.visit(&Lift0(Elias(Comma(w))), &R::lift(R::elias(R::Comma(w)))),
            18 => v.visit(&Elias(GAMMA), &R::elias(R::gamma())),
            19 => v.visit(&Fixed(w), &R::Fixed(w)),
            20 => v.visit(&Lift0(Fixed(w)), &R::lift(R::Fixed(w))),
            21 => v.visit(&Elias(Fixed(w)), &R::elias(R::Fixed(w))),
            22 => v.visit(&Lift0(Elias(Lift0(Omega))), &R::lift(R::elias(R::lift(R::Omega)))),
            23 => v.visit(&Elias(Lift0(Unary)), &R::elias(R::lift(R::Unary))),
            _ => v.visit(&Elias(Lift0(Comma(w))), &R::elias(R::lift(R::Comma(w)))),
        }
    }

    pub fn reference(self) -> Ref {
        struct R;
        impl Visit for R {
            type Out = Ref;
            fn visit<C: UniversalCode>(&mut self, _: &C, r: &Ref) -> Ref {
                r.clone()
            }
        }
        self.with(&mut R)
    }
}

/// A value to encode: any value the reference gives bits for, biased to the
/// boundaries of the codes (powers of two, of comma bases, Fibonacci numbers).
pub fn gen_value(s: &mut Src, r: &Ref) -> u64 {
    let (lo, hi) = (r.min(), r.max());
    let lo = lo.min(hi);
    if hi <= UNARY_MAX {
        return s.brange(lo, hi);
    }
    let v = match s.weighted(&[6, 2, 2, 2]) {
        0 => s.brange(lo, hi),
        1 => {
            let f = fibs();
            let i = s.idx(f.len());
            f[i].wrapping_add(s.below(3)).wrapping_sub(1)
        }
        2 => {
            let b = crate::low(s.range(2, 20) as usize);
            let k = s.below(32);
            let mut p = 1u64;
            for _ in 0..k {
                p = p.checked_mul(b).unwrap_or(p);
            }
            p.wrapping_add(s.below(3)).wrapping_sub(1)
        }
        _ => s.word(),
    };
    v.clamp(lo, hi)
}

impl Kind {
    pub fn encode<W: BitWrite>(self, w: &mut W, v: u64) -> Result<()> {
        struct E<'a, W: BitWrite + 'a>(&'a mut W, u64);
        impl<'a, W: BitWrite> Visit for E<'a, W> {
            type Out = Result<()>;
            fn visit<C: UniversalCode>(&mut self, c: &C, _: &Ref) -> Result<()> {
                c.encode(self.0, self.1)
            }
        }
        self.with(&mut E(w, v))
    }

    pub fn decode<R: BitRead>(self, r: &mut R) -> Result<Option<u64>> {
        struct D<'a, R: BitRead + 'a>(&'a mut R);
        impl<'a, R: BitRead> Visit for D<'a, R> {
            type Out = Result<Option<u64>>;
            fn visit<C: UniversalCode>(&mut self, c: &C, _: &Ref) -> Result<Option<u64>> {
                c.decode(self.0)
            }
        }
        self.with(&mut D(r))
    }
}
