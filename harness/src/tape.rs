//! The choice tape: every random decision of a case is one entry of a recorded tape.
//! 0 is always the simplest choice, so deleting and zeroing entries shrinks a case.

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

impl Rng {
    fn next_u32(&mut self) -> u32 {
        (self.next() >> 32) as u32
    }
}

/// A tape that makes the same choices as `Src::random(seed)`.
pub fn raw_tape(seed: u64) -> Vec<u32> {
    let mut r = Rng::new(seed);
    (0..MAX_DRAWS).map(|_| r.next_u32()).collect()
}

pub struct Src {
    rng: Option<Rng>,
    replay: Vec<u32>,
    pub tape: Vec<u32>,
}

const MAX_DRAWS: usize = 60_000;

impl Src {
    pub fn random(seed: u64) -> Self {
        Src {
            rng: Some(Rng::new(seed)),
            replay: Vec::new(),
            tape: Vec::new(),
        }
    }

    pub fn replay(tape: &[u32]) -> Self {
        Src {
            rng: None,
            replay: tape.to_vec(),
            tape: Vec::new(),
        }
    }

    /// A choice in `0..n`.
    pub fn below(&mut self, n: u32) -> u32 {
        debug_assert!(n > 0);
        let pos = self.tape.len();
        let v = if n <= 1 {
            return 0;
        } else if pos >= MAX_DRAWS {
            return 0;
        } else if let Some(rng) = &mut self.rng {
            rng.next_u32() % n
        } else {
            self.replay.get(pos).copied().unwrap_or(0) % n
        };
        self.tape.push(v);
        v
    }

    /// True in `percent` of the cases; a zero on the tape is false.
    pub fn chance(&mut self, percent: u32) -> bool {
        if percent == 0 {
            return false;
        }
        if percent >= 100 {
            return true;
        }
        self.below(100) >= 100 - percent
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u32) as usize;
        &xs[i]
    }

    /// Index into `weights`, drawn with those weights.
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u32 = weights.iter().sum();
        let mut v = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= *w;
        }
        0
    }

    /// A size with a heavy tail: mostly 0..3, now and then 15, rarely 40.
    pub fn count(&mut self, max: u32) -> usize {
        let bucket = self.weighted(&[30, 40, 20, 8, 2]);
        let n = match bucket {
            0 => self.below(2),
            1 => 1 + self.below(3),
            2 => 2 + self.below(5),
            3 => 5 + self.below(11),
            _ => 12 + self.below(30),
        };
        n.min(max) as usize
    }
}

pub fn hash64(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    let mut r = Rng::new(h);
    r.next()
}

/// Hypothesis-style shrinking of a tape. `fails` says whether the tape still fails.
pub fn shrink(tape: Vec<u32>, max_evals: usize, mut fails: impl FnMut(&[u32]) -> Option<Vec<u32>>) -> Vec<u32> {
    let mut best = tape;
    let mut evals = 0usize;
    let better = |a: &[u32], b: &[u32]| a.len() < b.len() || (a.len() == b.len() && a < b);

    // 0. cut off the end
    let (mut lo, mut hi) = (0usize, best.len());
    while lo < hi && evals < max_evals {
        let mid = (lo + hi) / 2;
        evals += 1;
        match fails(&best[..mid]) {
            Some(real) if better(&real, &best) => {
                best = real;
                hi = mid.min(best.len());
            }
            _ => lo = mid + 1,
        }
    }

    let mut improved = true;
    while improved && evals < max_evals {
        improved = false;
        // 1. delete chunks
        let mut size = 128usize.min(best.len().max(1));
        while size >= 1 {
            let mut i = best.len();
            while i > 0 && evals < max_evals {
                let start = i.saturating_sub(size);
                if start < best.len() {
                    let end = (start + size).min(best.len());
                    let mut cand = best.clone();
                    cand.drain(start..end);
                    evals += 1;
                    if let Some(real) = fails(&cand) {
                        if better(&real, &best) {
                            best = real;
                            improved = true;
                        }
                    }
                }
                i = start.min(best.len());
                if start == 0 {
                    break;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // 2. zero chunks
        let mut size = 32usize;
        while size >= 1 {
            let mut i = 0;
            while i < best.len() && evals < max_evals {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    for v in &mut cand[i..end] {
                        *v = 0;
                    }
                    evals += 1;
                    if let Some(real) = fails(&cand) {
                        if better(&real, &best) {
                            best = real;
                            improved = true;
                        }
                    }
                }
                i += size;
            }
            size /= 2;
        }
        // 3. lower single values
        let mut i = 0;
        while i < best.len() && evals < max_evals {
            let v = best[i];
            if v > 0 {
                for cand_v in [v / 2, v - 1] {
                    let mut cand = best.clone();
                    cand[i] = cand_v;
                    evals += 1;
                    if let Some(real) = fails(&cand) {
                        if better(&real, &best) {
                            best = real;
                            improved = true;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    best
}
