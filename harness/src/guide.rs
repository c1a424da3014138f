//! Coverage guidance: cases which reached something new in csvpp (an edge, or an edge that many times)
//! are kept, and some of the later cases are mutations of them.
use crate::src::Rng;

extern "C" {
    fn verif_cov_region(i: usize, start: *mut *mut u8) -> usize;
}

struct Entry {
    choices: Vec<u64>,
    bounds: Vec<u64>,
}

pub struct Guide {
    regions: Vec<(*mut u8, usize)>,
    seen: Vec<Vec<u8>>,
    corpus: Vec<Entry>,
    pub edges: u64,
}

const KEPT: usize = 4_000;

fn bucket(n: u8) -> u8 {
    match n {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        128.. => 128,
    }
}

impl Guide {
    pub fn new() -> Self {
        let mut regions = vec![];
        loop {
            let mut start = std::ptr::null_mut();
            // SAFETY: it fills in `start` if there is such a region
            let len = unsafe { verif_cov_region(regions.len(), &mut start) };
            if len == 0 {
                break;
            }
            regions.push((start, len));
        }
        let seen = regions.iter().map(|(_, len)| vec![0; *len]).collect();
        Guide { regions, seen, corpus: vec![], edges: 0 }
    }

    pub fn corpus_len(&self) -> usize {
        self.corpus.len()
    }

    pub fn edges_total(&self) -> u64 {
        self.regions.iter().map(|(_, len)| *len as u64).sum()
    }

    pub fn reset(&self) {
        for (start, len) in &self.regions {
            // SAFETY: they're the counters of this process, which are plain bytes
            unsafe { std::ptr::write_bytes(*start, 0, *len) };
        }
    }

    /// Was something new reached since the `reset`?
    fn collect(&mut self) -> bool {
        let mut new = false;
        for ((start, len), seen) in self.regions.iter().zip(&mut self.seen) {
            // SAFETY: as above, and no thread of csvpp is running now
            let counters = unsafe { std::slice::from_raw_parts(*start, *len) };
            for (cs, ss) in counters.chunks(8).zip(seen.chunks_mut(8)) {
                if cs.iter().all(|c| *c == 0) {
                    continue;
                }
                for (c, s) in cs.iter().zip(ss) {
                    let b = bucket(*c);
                    if b & !*s != 0 {
                        self.edges += u64::from(*s == 0);
                        *s |= b;
                        new = true;
                    }
                }
            }
        }
        new
    }

    /// after the case which was generated with these choices was checked
    pub fn learn(&mut self, choices: &[u64], bounds: &[u64], rng: &mut Rng) {
        if !self.collect() {
            return;
        }
        let e = Entry { choices: choices.to_vec(), bounds: bounds.to_vec() };
        if self.corpus.len() < KEPT {
            self.corpus.push(e);
        } else {
            let i = (rng.next() % KEPT as u64) as usize;
            self.corpus[i] = e;
        }
    }

    fn choose(&self, rng: &mut Rng) -> &Entry {
        let n = self.corpus.len() as u64;
        // the newest ones more often
        let back = if rng.next() % 3 == 0 { rng.next() % n.min(20) } else { rng.next() % n };
        &self.corpus[(n - 1 - back) as usize]
    }

    /// A mutation of one of the kept cases, to be extended randomly if it's too short
    pub fn mutant(&self, rng: &mut Rng) -> Option<Vec<u64>> {
        if self.corpus.is_empty() {
            return None;
        }
        let base = self.choose(rng);
        let mut c = base.choices.clone();
        let mut b = base.bounds.clone();
        let below = |rng: &mut Rng, n: usize| (rng.next() % n.max(1) as u64) as usize;
        for _ in 0..1 + rng.next() % 5 {
            if c.is_empty() {
                break;
            }
            let i = below(rng, c.len());
            match rng.next() % 16 {
                0..=7 => {
                    c[i] = match rng.next() % 8 {
                        0 => 0,
                        1 => b[i] - 1,
                        2 => (c[i] + 1).min(b[i] - 1),
                        3 => c[i].saturating_sub(1),
                        _ => rng.next() % b[i],
                    };
                }
                8 | 9 => {
                    // another case's choice of the same kind
                    let other = self.choose(rng);
                    let from = below(rng, other.choices.len());
                    let found = (from..other.choices.len()).find(|j| other.bounds[*j] == b[i]);
                    if let Some(j) = found {
                        let n = (1 + below(rng, 12)).min(other.choices.len() - j);
                        let end = (i + n).min(c.len());
                        c.splice(i..end, other.choices[j..j + n].iter().copied());
                        b.splice(i..end, other.bounds[j..j + n].iter().copied());
                    }
                }
                10 | 11 => {
                    let end = (i + 1 + below(rng, 8)).min(c.len());
                    c.drain(i..end);
                    b.drain(i..end);
                }
                12 | 13 => {
                    // something twice
                    let end = (i + 1 + below(rng, 24)).min(c.len());
                    let (cs, bs) = (c[i..end].to_vec(), b[i..end].to_vec());
                    c.splice(end..end, cs);
                    b.splice(end..end, bs);
                }
                14 => {
                    c.truncate(i);
                    b.truncate(i);
                }
                _ => {
                    let other = self.choose(rng);
                    let j = below(rng, other.choices.len());
                    c.truncate(i);
                    b.truncate(i);
                    c.extend(&other.choices[j..]);
                    b.extend(&other.bounds[j..]);
                }
            }
        }
        Some(c)
    }
}
