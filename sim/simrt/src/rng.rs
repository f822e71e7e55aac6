//! The only source of randomness: splitmix64-seeded xoshiro256**.

#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let mut s = [0; 4];
        for v in s.iter_mut() {
            x = mix(x);
            *v = x;
        }
        Rng { s }
    }

    /// A stream named by a seed and a path of numbers.
    pub fn derive(seed: u64, path: &[u64]) -> Self {
        let mut h = mix(seed);
        for p in path {
            h = mix(h ^ mix(*p));
        }
        Rng::new(h)
    }

    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    /// Uniform in 0..n (0 if n is 0).
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }

    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }

    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }

    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }

    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }

    /// Index drawn with the given weights.
    pub fn weighted(&mut self, w: &[f64]) -> usize {
        let sum: f64 = w.iter().sum();
        let mut x = self.unit() * sum;
        for (i, p) in w.iter().enumerate() {
            if x < *p {
                return i;
            }
            x -= p;
        }
        w.iter().rposition(|p| *p > 0.0).unwrap_or(0)
    }

    /// Geometric-like gap with the given mean (at least 1).
    pub fn gap(&mut self, mean: f64) -> u64 {
        let u = self.unit().max(1e-12);
        (1.0 + (-u.ln()) * (mean - 1.0).max(0.0)) as u64
    }

    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i as u64 + 1) as usize);
        }
    }
}
