//! splitmix64/xoshiro-style deterministic generator plus hostile byte-string generators.
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

#[derive(Clone, Debug)]
pub struct Rng {
    s: u64,
    c: u64,
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng { s: mix(seed), c: 0 }
    }
    pub fn derive(seed: u64, name: &str, index: u64) -> Self {
        let h = crate::fnv(name.as_bytes());
        Rng {
            s: mix(mix(seed) ^ mix(h.wrapping_add(mix(index)))),
            c: 0,
        }
    }
    pub fn u64(&mut self) -> u64 {
        self.c = self.c.wrapping_add(1);
        mix(self.s ^ self.c.wrapping_mul(0xd1342543de82ef95)).wrapping_add(mix(self.c ^ self.s.rotate_left(32)))
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        self.u64() % n
    }
    /// inclusive range
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let x = self.u64().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill(&mut v);
        v
    }
    /// Lengths with a heavy tail: mostly below `common`, often next to a power of two or a hash
    /// block, now and then some thousand, rarely beyond 16 bits.
    pub fn size(&mut self, common: usize) -> usize {
        match self.below(240) {
            0 => *self.pick(&[65519usize, 65535, 65536, 65537, 66000, 70001]),
            1..=8 => self.below(6000) as usize,
            9..=60 => {
                let b = match self.below(3) {
                    0 => 1usize << self.range(3, 13),
                    1 => 64 * self.range(1, 24) as usize,
                    _ => 136 * self.range(1, 8) as usize,
                };
                (b as i64 + self.below(5) as i64 - 2) as usize
            }
            _ => self.below(common.max(1) as u64) as usize,
        }
    }
    /// Byte strings biased towards structure: constant, sparse, runs, counters, single-bit.
    pub fn hostile(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n];
        match self.below(12) {
            0 => {
                let b = *self.pick(&[0x00u8, 0xff, 0x80, 0x7f, 0x01, 0xaa, 0x55, 0xfe]);
                v.iter_mut().for_each(|x| *x = b);
            }
            1 => {
                // single bit
                if n > 0 {
                    let i = self.below(n as u64) as usize;
                    v[i] = 1 << self.below(8);
                }
            }
            2 => {
                // all ones but one bit
                v.iter_mut().for_each(|x| *x = 0xff);
                if n > 0 {
                    let i = self.below(n as u64) as usize;
                    v[i] ^= 1 << self.below(8);
                }
            }
            3 => {
                let st = self.u8();
                let step = *self.pick(&[1u8, 2, 3, 0x10, 0xff]);
                for (i, x) in v.iter_mut().enumerate() {
                    *x = st.wrapping_add((i as u8).wrapping_mul(step));
                }
            }
            4 => {
                // runs
                let mut i = 0;
                while i < n {
                    let l = (self.range(1, 40) as usize).min(n - i);
                    let b = if self.chance(1, 2) {
                        *self.pick(&[0x00u8, 0xff, 0x80, 0x7f])
                    } else {
                        self.u8()
                    };
                    for x in &mut v[i..i + l] {
                        *x = b;
                    }
                    i += l;
                }
            }
            5 => {
                // sparse random
                let k = self.range(0, 6);
                for _ in 0..k {
                    if n > 0 {
                        let i = self.below(n as u64) as usize;
                        v[i] = self.u8();
                    }
                }
            }
            _ => self.fill(&mut v),
        }
        v
    }
    /// Flip one random bit / replace a byte / swap / rewrite a range. Guaranteed to change `b`
    /// when `b` is not empty.
    pub fn mutate(&mut self, b: &mut [u8]) -> String {
        if b.is_empty() {
            return "empty".into();
        }
        let n = b.len() as u64;
        let orig = b.to_vec();
        for _ in 0..64 {
            let d = match self.below(9) {
                // differences that cancel out under exclusive or, or under addition
                6 => {
                    let i = self.below(n) as usize;
                    let j = self.below(n) as usize;
                    let x = self.u8();
                    if self.chance(1, 2) {
                        b[i] ^= x;
                        b[j] ^= x;
                    } else {
                        b[i] = b[i].wrapping_add(x);
                        b[j] = b[j].wrapping_sub(x);
                    }
                    format!("cancelling change {:#x} of bytes {} and {}", x, i, j)
                }
                // only a common head or tail is left
                7 => {
                    let i = self.below(n) as usize;
                    if self.chance(1, 2) {
                        self.fill(&mut b[i..]);
                        format!("keep the first {} bytes", i)
                    } else {
                        self.fill(&mut b[..i + 1]);
                        format!("keep the bytes from {}", i + 1)
                    }
                }
                8 => match self.below(4) {
                    0 => {
                        b.reverse();
                        "reverse".into()
                    }
                    1 => {
                        let k = self.below(n) as usize;
                        b.rotate_left(k);
                        format!("rotate by {}", k)
                    }
                    2 => {
                        b.iter_mut().for_each(|x| *x = !*x);
                        "complement".into()
                    }
                    _ => {
                        let k = self.below(8);
                        b.iter_mut().for_each(|x| *x ^= 1 << k);
                        format!("flip bit {} of every byte", k)
                    }
                },
                0 | 1 => {
                    let i = self.below(n) as usize;
                    let k = self.below(8);
                    b[i] ^= 1 << k;
                    format!("flip bit {} of byte {}", k, i)
                }
                2 => {
                    let i = self.below(n) as usize;
                    let x = self.u8();
                    b[i] = x;
                    format!("set byte {} to {:#x}", i, x)
                }
                3 => {
                    let i = self.below(n) as usize;
                    let j = self.below(n) as usize;
                    b.swap(i, j);
                    format!("swap bytes {} {}", i, j)
                }
                4 => {
                    let i = self.below(n) as usize;
                    let l = self.range(1, (n - i as u64).min(32)) as usize;
                    self.fill(&mut b[i..i + l]);
                    format!("randomise {}..{}", i, i + l)
                }
                _ => {
                    let i = self.below(n) as usize;
                    let l = self.range(1, (n - i as u64).min(32)) as usize;
                    for x in &mut b[i..i + l] {
                        *x = 0;
                    }
                    format!("zero {}..{}", i, i + l)
                }
            };
            if b != &orig[..] {
                return d;
            }
        }
        b[0] ^= 1;
        "flip bit 0 of byte 0".into()
    }
}
