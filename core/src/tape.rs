//! The source of every random choice: a tape of bounded draws. A case is a pure function of its
//! tape, so a failure is replayed and shrunk on the tape alone. Draw 0 is the simplest choice.

/// splitmix64 based generator
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn hash64(parts: &[&[u8]]) -> u64 {
    // FNV-1a with a final mix; stable over runs and platforms
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for p in parts {
        for b in *p {
            h ^= *b as u64;
            h = h.wrapping_mul(0x0000_0100_0000_01B3);
        }
        h ^= 0xff;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    Rng::new(h).next()
}

enum Mode {
    Random(Rng),
    Replay,
    Bytes { data: Vec<u8>, pos: usize },
}

pub struct Src {
    mode: Mode,
    tape: Vec<u64>,
    pos: usize,
    /// draws beyond this give 0, which ends every generator
    limit: usize,
}

pub const TAPE_LIMIT: usize = 20_000;

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { mode: Mode::Random(Rng::new(seed)), tape: vec![], pos: 0, limit: TAPE_LIMIT }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { mode: Mode::Replay, tape, pos: 0, limit: TAPE_LIMIT }
    }
    pub fn bytes(data: &[u8]) -> Self {
        Src { mode: Mode::Bytes { data: data.to_vec(), pos: 0 }, tape: vec![], pos: 0, limit: TAPE_LIMIT }
    }
    /// the choices made so far
    pub fn used(&self) -> Vec<u64> {
        match self.mode {
            Mode::Replay => self.tape[..self.pos.min(self.tape.len())].to_vec(),
            _ => self.tape.clone(),
        }
    }
    pub fn exhausted(&self) -> bool {
        self.pos >= self.limit
    }
    /// an integer in 0..n
    pub fn draw(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        if self.pos >= self.limit {
            return 0;
        }
        self.pos += 1;
        match &mut self.mode {
            Mode::Replay => {
                let v = self.tape.get(self.pos - 1).copied().unwrap_or(0);
                if v < n {
                    v
                } else {
                    n - 1
                }
            }
            Mode::Random(r) => {
                let v = if n == 1 { 0 } else { ((r.next() as u128 * n as u128) >> 64) as u64 };
                self.tape.push(v);
                v
            }
            Mode::Bytes { data, pos } => {
                let mut take = || {
                    let b = data.get(*pos).copied().unwrap_or(0) as u64;
                    *pos += 1;
                    b
                };
                let v = if n <= 1 {
                    0
                } else if n <= 256 {
                    take() % n
                } else if n <= 65536 {
                    (take() | take() << 8) % n
                } else {
                    let mut v = 0;
                    for i in 0..8 {
                        v |= take() << (8 * i);
                    }
                    v % n
                };
                self.tape.push(v);
                v
            }
        }
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    /// in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability pct/100; false is the simple choice
    pub fn chance(&mut self, pct: u64) -> bool {
        let v = self.draw(100);
        v >= 100 - pct.min(100)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// index chosen by weight; the first one is the simplest
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.draw(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    /// small counts are likely, up to max
    pub fn count(&mut self, mean: usize, max: usize) -> usize {
        let mut n = 0;
        while n < max && self.draw((mean + 1) as u64) != 0 {
            n += 1;
        }
        n
    }
    pub fn u64(&mut self) -> u64 {
        self.draw(u64::MAX)
    }
}

/// Shrinks a failing tape: `fails` says whether a tape still fails and returns the draws it used.
pub fn shrink(start: Vec<u64>, budget: usize, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> (Vec<u64>, usize) {
    let mut best = start;
    let mut runs = 0usize;
    let better = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            if runs >= budget {
                false
            } else {
                runs += 1;
                match fails(&cand) {
                    Some(used) => {
                        let used = if better(&used, &cand) { used } else { cand };
                        if better(&used, &best) {
                            best = used;
                            true
                        } else {
                            false
                        }
                    }
                    None => false,
                }
            }
        }};
    }
    loop {
        let before = best.clone();
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = best.len();
            while i > 0 {
                let lo = i.saturating_sub(size);
                if i <= best.len() {
                    let mut c = best.clone();
                    c.drain(lo..i);
                    if !attempt!(c) {
                        // deleting a block whose count is drawn just before it
                        if lo > 0 && best[lo - 1] > 0 && size <= 8 {
                            let mut c = best.clone();
                            c.drain(lo..i.min(c.len()));
                            c[lo - 1] -= 1;
                            attempt!(c);
                        }
                    }
                }
                i = lo;
                if runs >= budget {
                    break;
                }
            }
            if size == 1 || runs >= budget {
                break;
            }
            size /= 2;
        }
        // zero blocks
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() && runs < budget {
                let hi = (i + size).min(best.len());
                if best[i..hi].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..hi].iter_mut().for_each(|v| *v = 0);
                    attempt!(c);
                }
                i += size;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.len() && runs < budget {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi && i < best.len() && runs < budget {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if attempt!(c) {
                    hi = mid;
                    if i < best.len() && best[i] < hi {
                        hi = best[i];
                    }
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before || runs >= budget {
            return (best, runs);
        }
    }
}
