//! Deterministic generator (xoshiro256**, seeded by splitmix64).

#[derive(Clone)]
pub struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(parts: &[u64]) -> Rng {
        let mut x = 0x5DEE_CE66_D1CE_5EEDu64;
        for &p in parts {
            x ^= p;
            splitmix(&mut x);
            x = x.rotate_left(23);
        }
        let mut s = [0; 4];
        for v in s.iter_mut() {
            *v = splitmix(&mut x);
        }
        Rng(s)
    }

    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }

    /// Uniform in `0 ..= max`.
    pub fn upto(&mut self, max: u64) -> u64 {
        if max == u64::MAX {
            self.next()
        } else {
            ((self.next() as u128 * (max as u128 + 1)) >> 64) as u64
        }
    }

    /// Uniform in `0 .. n`; `n > 0`.
    pub fn below(&mut self, n: u64) -> u64 {
        self.upto(n - 1)
    }
}
