//! Random choices, recorded so that failures can be shrunk (the Hypothesis scheme): a case is
//! decoded from a sequence of integers; shrinking deletes and lowers them and decodes again.

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h ^= u64::from(b);
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

/// A source of choices: fresh random ones, or a recorded sequence (0 once exhausted).
pub struct Src {
    rng: Option<Rng>,
    pub log: Vec<u64>,
    replay: Vec<u64>,
    pos: usize,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src {
            rng: Some(Rng::new(seed)),
            log: Vec::new(),
            replay: Vec::new(),
            pos: 0,
        }
    }
    pub fn replay(choices: Vec<u64>) -> Src {
        Src {
            rng: None,
            log: Vec::new(),
            replay: choices,
            pos: 0,
        }
    }
    /// Uniform in 0..n.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = match &mut self.rng {
            Some(r) => r.next() % n,
            None => {
                let v = self.replay.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(n - 1)
            }
        };
        self.log.push(v);
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// True with probability pct/100. False is the simple choice.
    pub fn pct(&mut self, pct: u64) -> bool {
        self.below(100) >= 100 - pct
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.usize(items.len());
        &items[i]
    }
    /// An index chosen with the given weights; shrinks towards the first.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= *w;
        }
        unreachable!()
    }
    /// A count in lo..=hi, biased towards small values but reaching hi.
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        if hi <= lo {
            return lo;
        }
        let span = (hi - lo) as u64;
        let m = match self.weighted(&[5, 3, 1]) {
            0 => (span / 4).max(1),
            1 => (span / 2).max(1),
            _ => span,
        };
        lo + self.below(m + 1) as usize
    }
}

/// Shrinks `choices` while `fails` holds. `fails` gets the candidate and returns the choices
/// actually consumed when the case still fails.
pub fn shrink<F>(choices: Vec<u64>, budget: usize, mut fails: F) -> Vec<u64>
where
    F: FnMut(&[u64]) -> Option<Vec<u64>>,
{
    let mut best = choices;
    let mut left = budget;
    let better = |a: &Vec<u64>, b: &Vec<u64>| (a.len(), a) < (b.len(), b);
    loop {
        let before = best.clone();
        // Delete chunks.
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                if left == 0 {
                    return best;
                }
                let end = (i + size).min(best.len());
                let mut cand = best.clone();
                cand.drain(i..end);
                left -= 1;
                match fails(&cand) {
                    Some(used) if better(&used, &best) => best = used,
                    _ => i += size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Lower values: zero, then halve, then decrement.
        let mut i = 0;
        while i < best.len() {
            for step in 0..3 {
                while i < best.len() && best[i] > 0 {
                    if left == 0 {
                        return best;
                    }
                    let mut cand = best.clone();
                    cand[i] = match step {
                        0 => 0,
                        1 => cand[i] / 2,
                        _ => cand[i] - 1,
                    };
                    left -= 1;
                    match fails(&cand) {
                        Some(used) if better(&used, &best) => best = used,
                        _ => break,
                    }
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}
