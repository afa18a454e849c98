/// A stream of choices: random when generating, fixed when replaying or shrinking.
pub struct D {
    rec: Vec<u64>,
    replay: Option<Vec<u64>>,
    s: [u64; 4],
    limit: usize,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl D {
    pub fn random(seed: u64) -> Self {
        let mut x = seed;
        let s = [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)];
        Self { rec: Vec::new(), replay: None, s, limit: 4_000_000 }
    }

    pub fn replaying(choices: Vec<u64>) -> Self {
        let mut d = Self::random(0);
        d.replay = Some(choices);
        d
    }

    pub fn choices(&self) -> &[u64] {
        &self.rec
    }

    fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    /// A value in `0..n` (n >= 1). The smallest value is the simplest.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n >= 1);
        let v = match &self.replay {
            Some(r) => r.get(self.rec.len()).copied().unwrap_or(0).min(n - 1),
            None => {
                if self.rec.len() >= self.limit {
                    0
                } else {
                    // multiply-shift keeps the bias negligible
                    ((u128::from(self.next()) * u128::from(n)) >> 64) as u64
                }
            }
        };
        self.rec.push(v);
        v
    }

    /// A full 64-bit value.
    pub fn raw(&mut self) -> u64 {
        let v = match &self.replay {
            Some(r) => r.get(self.rec.len()).copied().unwrap_or(0),
            None => self.next(),
        };
        self.rec.push(v);
        v
    }

    /// Inclusive range.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn i64(&mut self, lo: i64, hi: i64) -> i64 {
        lo.wrapping_add(self.below((hi as i128 - lo as i128 + 1) as u64) as i64)
    }
    pub fn u8(&mut self) -> u8 {
        self.below(256) as u8
    }
    /// True with probability num/den; false is the simple value.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    /// Index chosen with the given weights; earlier is simpler.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        unreachable!()
    }
    /// A length: mostly small, sometimes up to `max`.
    pub fn len(&mut self, max: usize) -> usize {
        match self.weighted(&[6, 3, 1]) {
            0 => self.usize(0, max.min(4)),
            1 => self.usize(0, max.min(16)),
            _ => self.usize(0, max),
        }
    }
    /// A vector whose elements can be removed one by one while shrinking.
    pub fn vec<T>(&mut self, max: usize, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let n = self.len(max);
        (0..n).map(|_| f(self)).collect()
    }
    pub fn vec_between<T>(&mut self, lo: usize, hi: usize, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let n = self.usize(lo, hi);
        (0..n).map(|_| f(self)).collect()
    }
    pub fn string_of(&mut self, alphabet: &[char], lo: usize, hi: usize) -> String {
        let n = self.usize(lo, hi);
        (0..n).map(|_| *self.pick(alphabet)).collect()
    }
    /// Arbitrary bytes: random, runs, repeats of earlier parts, small alphabets.
    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        let target = match self.weighted(&[5, 3, 2]) {
            0 => self.usize(0, max.min(24)),
            1 => self.usize(0, max.min(600)),
            _ => self.usize(0, max),
        };
        let mut v: Vec<u8> = Vec::new();
        while v.len() < target {
            let left = target - v.len();
            match self.weighted(&[4, 3, 3, 2]) {
                0 => {
                    let n = self.usize(1, left.min(40));
                    for _ in 0..n {
                        let b = self.u8();
                        v.push(b);
                    }
                }
                1 => {
                    let wide = if self.bool() { 2000 } else { 40 };
                    let n = self.usize(1, left.min(wide));
                    let b = self.u8();
                    v.extend(std::iter::repeat(b).take(n));
                }
                2 if !v.is_empty() => {
                    let n = self.usize(1, left.min(300));
                    let back = self.usize(1, v.len());
                    let start = v.len() - back;
                    for i in 0..n {
                        let b = v[start + i % back];
                        v.push(b);
                    }
                }
                _ => {
                    // cheap filler: one choice seeds many bytes
                    let n = self.usize(1, left.min(4000));
                    let mut x = self.raw();
                    let m = *self.pick(&[255u64, 3, 15, 1]);
                    for _ in 0..n {
                        v.push((splitmix(&mut x) & m) as u8);
                    }
                }
            }
        }
        v
    }
    /// Bytes with one choice per kilobyte or so, for big payloads.
    pub fn bulk(&mut self, n: usize) -> Vec<u8> {
        let mut x = self.raw();
        (0..n).map(|_| splitmix(&mut x) as u8).collect()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            // the simple choice (0) keeps the order
            let j = i - self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}
