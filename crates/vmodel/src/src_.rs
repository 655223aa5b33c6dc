//! Choice-sequence source: every random decision of a case goes through here,
//! is recorded, can be replayed and can be shrunk. The value 0 is the simplest
//! choice everywhere.

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}
pub fn hash_bytes(s: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s {
        h = (h ^ *b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    mix(h)
}

pub struct Src {
    rng: Rng,
    replay: Option<Vec<u64>>,
    pub log: Vec<u64>,
    through: Option<std::fs::File>,
}

fn through() -> Option<std::fs::File> {
    std::env::var("VERIF_CHOICE_LOG").ok().and_then(|p| std::fs::File::create(p).ok())
}

impl Src {
    pub fn new(seed: u64) -> Self {
        Src { rng: Rng(seed), replay: None, log: Vec::new(), through: through() }
    }
    pub fn replay(v: Vec<u64>) -> Self {
        Src { rng: Rng(0), replay: Some(v), log: Vec::new(), through: through() }
    }
    fn push(&mut self, v: u64) {
        self.log.push(v);
        if let Some(f) = &mut self.through {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
    }
    /// A choice in 0..n whose random value is produced by `f` (clamped).
    pub fn choice(&mut self, n: u64, f: impl FnOnce(&mut Rng) -> u64) -> u64 {
        assert!(n >= 1);
        let v = match &self.replay {
            Some(r) => r.get(self.log.len()).copied().unwrap_or(0).min(n - 1),
            None => f(&mut self.rng).min(n - 1),
        };
        self.push(v);
        v
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.choice(n, |r| ((r.next() as u128 * n as u128) >> 64) as u64)
    }
    pub fn u64(&mut self) -> u64 {
        match &self.replay {
            Some(r) => {
                let v = r.get(self.log.len()).copied().unwrap_or(0);
                self.push(v);
                v
            }
            None => {
                let v = self.rng.next();
                self.push(v);
                v
            }
        }
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.usize(hi - lo + 1)
    }
    /// true with probability num/den; false is the simple value
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.choice(2, |r| (r.next() % den < num) as u64) == 1
    }
    pub fn bool(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.usize(v.len());
        &v[i]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        self.choice(w.len() as u64, |r| {
            let mut x = r.next() % total;
            for (i, k) in w.iter().enumerate() {
                if x < *k as u64 {
                    return i as u64;
                }
                x -= *k as u64;
            }
            0
        }) as usize
    }
    /// geometric-ish small size, at most max
    pub fn small(&mut self, max: usize) -> usize {
        self.choice(max as u64 + 1, |r| {
            let x = r.next();
            match x % 16 {
                0..=1 => 0,
                2..=4 => 1,
                5..=7 => 2,
                8..=9 => 3,
                10..=13 => (x >> 8) % 9,
                _ => (x >> 8) % (max as u64 + 1),
            }
        }) as usize
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            // choice 0 keeps the element in place
            let k = self.usize(i + 1);
            v.swap(i, i - k);
        }
    }
    /// any integer of the given range, biased to boundaries and small values
    pub fn int(&mut self, lo: i128, hi: i128) -> i128 {
        let span = (hi - lo) as u128;
        let kind = self.weighted(&[4, 3, 2, 2, 2, 3]);
        let v = match kind {
            0 => (self.below(20)) as i128,
            1 => -((self.below(20)) as i128),
            2 => hi - self.below(4) as i128,
            3 => lo + self.below(4) as i128,
            4 => {
                let b = self.below(64) as u32;
                let d = self.below(3) as i128 - 1;
                (1i128 << b) + d
            }
            _ => lo + (self.u64() as u128 % (span + 1)) as i128,
        };
        v.clamp(lo, hi)
    }
}
