//! Minimises a failing choice sequence.

/// `fails` runs a candidate and returns the choices it actually used if it
/// fails. Stops after `budget` runs.
pub fn shrink<F>(start: Vec<u64>, budget: usize, mut fails: F) -> Vec<u64>
where
    F: FnMut(&[u64]) -> Option<Vec<u64>>,
{
    let mut best = start;
    let mut left = budget;
    let t0 = std::time::Instant::now();

    macro_rules! attempt {
        ($cand:expr) => {{
            if left == 0 || t0.elapsed().as_secs() > 90 {
                return best;
            }
            left -= 1;
            let cand: Vec<u64> = $cand;
            match fails(&cand) {
                Some(used) if smaller(&used, &best) => {
                    best = used;
                    true
                }
                _ => false,
            }
        }};
    }

    loop {
        let before = best.clone();

        // Delete chunks, large to small.
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = best.len();
            while i > 0 {
                let lo = i.saturating_sub(size);
                if lo >= best.len() {
                    i = lo;
                    continue;
                }
                let hi = (lo + size).min(best.len());
                let mut c = best[..lo].to_vec();
                c.extend_from_slice(&best[hi..]);
                if !attempt!(c) {
                    i = if size > 8 { lo } else { i - 1 };
                } else {
                    i = i.min(best.len());
                }
            }
            if size == 1 {
                break;
            }
            size = if size > 8 { size / 2 } else { size - 1 };
        }

        // Zero chunks.
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() {
                let hi = (i + size).min(best.len());
                if best[i..hi].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    c[i..hi].iter_mut().for_each(|x| *x = 0);
                    attempt!(c);
                }
                i += size;
            }
        }

        // Lower individual choices by binary search.
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut hi) = (0u64, best[i]); // hi fails
            let mut steps = 0;
            while lo < hi && steps < 70 {
                steps += 1;
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if attempt!(c) {
                    if i >= best.len() {
                        break;
                    }
                    hi = best[i].min(mid);
                } else {
                    lo = mid + 1;
                }
            }
            // Clear single bits of wide choices.
            if i < best.len() && best[i] > 255 {
                for b in (0..64).rev() {
                    if i < best.len() && best[i] >> b & 1 == 1 {
                        let mut c = best.clone();
                        c[i] &= !(1 << b);
                        attempt!(c);
                    }
                }
            }
            i += 1;
        }

        // Lower one choice and delete a later one (length-prefixed lists).
        let mut i = 0;
        while i < best.len() && best.len() < 400 {
            if best[i] > 0 {
                let mut j = i + 1;
                while j < best.len().min(i + 24) {
                    let mut c = best.clone();
                    c[i] -= 1;
                    c.remove(j);
                    if attempt!(c) && (i >= best.len() || best[i] == 0) {
                        break;
                    }
                    j += 1;
                }
            }
            i += 1;
        }

        if best == before {
            return best;
        }
    }
}

fn smaller(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a) < (b.len(), b)
}
