//! Choice-sequence based generation: every generated case is a deterministic function of a list of
//! bounded integers, which is what gets shrunk.

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    Rng::new(a ^ b.rotate_left(32).wrapping_mul(0x2545_F491_4F6C_DD1D)).next()
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h ^= u64::from(b);
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    mix(h, 0x51)
}

pub struct Src {
    data: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    pub rec: Vec<u64>,
    /// the `n` of each choice in `rec`
    pub bounds: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { data: vec![], pos: 0, rng: Some(Rng::new(seed)), rec: vec![], bounds: vec![] }
    }
    pub fn replay(data: Vec<u64>) -> Self {
        Src { data, pos: 0, rng: None, rec: vec![], bounds: vec![] }
    }
    /// the given choices, and random ones after they run out
    pub fn extended(data: Vec<u64>, seed: u64) -> Self {
        Src { data, ..Src::random(seed) }
    }
    /// an integer in `0..n` (0 is the simplest)
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = if self.pos < self.data.len() {
            self.data[self.pos].min(n - 1)
        } else if let Some(r) = &mut self.rng {
            r.next() % n
        } else {
            0
        };
        self.pos += 1;
        self.rec.push(v);
        self.bounds.push(n);
        v
    }
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.us(xs.len());
        &xs[i]
    }
    /// a small length, biased towards the small end, at most `max`
    pub fn len(&mut self, max: usize) -> usize {
        match self.below(4) {
            0 => self.us(max.min(2) + 1),
            1 => self.us(max.min(3) + 1),
            2 => self.us(max / 2 + 1),
            _ => self.us(max + 1),
        }
    }
    /// an integer in `lo..=hi`, though sometimes much larger (up to `big`)
    pub fn wide(&mut self, lo: usize, hi: usize, big: usize, odds: u64) -> usize {
        let top = if self.chance(1, odds) { big.max(hi) } else { hi };
        self.range(lo as u64, top as u64) as usize
    }
    /// weighted choice of an index
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        0
    }
    /// a random permutation of 0..n (shrinks to the identity)
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            let j = i - self.us(i + 1);
            v.swap(i, j);
        }
        v
    }
}
