//! Independent arithmetic for the three curves: schoolbook 256-bit integers, textbook formulas.
//! Nothing here uses curve25519-dalek or libsecp256k1.
pub type U = [u64; 4];

pub const fn hexu(s: &str) -> U {
    let b = s.as_bytes();
    let mut r = [0u64; 4];
    let mut i = 0;
    while i < 64 {
        let c = b[i];
        let v = if c >= b'a' { c - b'a' + 10 } else { c - b'0' } as u64;
        let k = (63 - i) / 16;
        r[k] = (r[k] << 4) | v;
        i += 1;
    }
    r
}

pub const P25519: U = hexu("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed");
pub const L25519: U = hexu("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed");
pub const ED_D: U = hexu("52036cee2b6ffe738cc740797779e89800700a4d4141d8ab75eb4dca135978a3");
pub const ED_BX: U = hexu("216936d3cd6e53fec0a4e231fdd6dc5c692cc7609525a7b2c9562d608f25d51a");
pub const ED_BY: U = hexu("6666666666666666666666666666666666666666666666666666666666666658");
pub const SQRTM1: U = hexu("2b8324804fc1df0b2b4d00993dfbd7a72f431806ad2fe478c4ee1b274a0ea0b0");
pub const SECP_P: U = hexu("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f");
pub const SECP_N: U = hexu("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141");
pub const SECP_GX: U = hexu("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798");
pub const SECP_GY: U = hexu("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8");

pub const ZERO: U = [0; 4];
pub const ONE: U = [1, 0, 0, 0];

pub fn small(x: u64) -> U {
    [x, 0, 0, 0]
}
pub fn from_le(b: &[u8]) -> U {
    let mut r = ZERO;
    for i in 0..32 {
        r[i / 8] |= (b[i] as u64) << (8 * (i % 8));
    }
    r
}
pub fn to_le(u: &U) -> [u8; 32] {
    let mut b = [0; 32];
    for i in 0..32 {
        b[i] = (u[i / 8] >> (8 * (i % 8))) as u8;
    }
    b
}
pub fn from_be(b: &[u8]) -> U {
    let mut v = b.to_vec();
    v.reverse();
    from_le(&v)
}
pub fn to_be(u: &U) -> [u8; 32] {
    let mut b = to_le(u);
    b.reverse();
    b
}
pub fn lt(a: &U, b: &U) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] < b[i];
        }
    }
    false
}
pub fn bit(a: &U, i: usize) -> bool {
    a[i / 64] >> (i % 64) & 1 == 1
}
/// a + b, carry
pub fn add(a: &U, b: &U) -> (U, bool) {
    let mut r = ZERO;
    let mut c = 0u128;
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
    }
    (r, c != 0)
}
/// a - b, borrow
pub fn sub(a: &U, b: &U) -> (U, bool) {
    let mut r = ZERO;
    let mut c = 0i128;
    for i in 0..4 {
        c += a[i] as i128 - b[i] as i128;
        r[i] = c as u64;
        c >>= 64;
    }
    (r, c != 0)
}
pub fn mul(a: &U, b: &U) -> [u64; 8] {
    let mut r = [0u64; 8];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            c += r[i + j] as u128 + a[i] as u128 * b[j] as u128;
            r[i + j] = c as u64;
            c >>= 64;
        }
        r[i + 4] = c as u64;
    }
    r
}

/// Arithmetic modulo an odd 256-bit number.
pub struct M {
    pub p: U,
    /// 2^256 mod p when small
    fold: u64,
}
pub const F25519: M = M { p: P25519, fold: 38 };
pub const S25519: M = M { p: L25519, fold: 0 };
pub const FSECP: M = M { p: SECP_P, fold: 0x1000003d1 };
pub const SSECP: M = M { p: SECP_N, fold: 0 };

impl M {
    pub fn red(&self, x: &U) -> U {
        let mut x = *x;
        while !lt(&x, &self.p) {
            x = sub(&x, &self.p).0;
        }
        x
    }
    pub fn red8(&self, x: &[u64; 8]) -> U {
        if self.fold != 0 {
            let mut lo = [x[0], x[1], x[2], x[3]];
            let mut hi = [x[4], x[5], x[6], x[7]];
            while hi != ZERO {
                let t = mul(&hi, &small(self.fold));
                let (s, c) = add(&lo, &[t[0], t[1], t[2], t[3]]);
                lo = s;
                hi = [t[4], t[5], t[6], t[7]];
                if c {
                    hi = add(&hi, &ONE).0;
                }
            }
            return self.red(&lo);
        }
        // bit by bit
        let mut r = ZERO;
        for i in (0..512).rev() {
            let (d, c) = add(&r, &r);
            r = d;
            if x[i / 64] >> (i % 64) & 1 == 1 {
                r[0] |= 1;
            }
            if c || !lt(&r, &self.p) {
                r = sub(&r, &self.p).0;
            }
        }
        r
    }
    pub fn add(&self, a: &U, b: &U) -> U {
        let (s, c) = add(&self.red(a), &self.red(b));
        if c || !lt(&s, &self.p) {
            sub(&s, &self.p).0
        } else {
            s
        }
    }
    pub fn sub(&self, a: &U, b: &U) -> U {
        let (s, c) = sub(&self.red(a), &self.red(b));
        if c {
            add(&s, &self.p).0
        } else {
            s
        }
    }
    pub fn neg(&self, a: &U) -> U {
        self.sub(&ZERO, a)
    }
    pub fn mul(&self, a: &U, b: &U) -> U {
        self.red8(&mul(a, b))
    }
    pub fn pow(&self, a: &U, e: &U) -> U {
        let mut r = ONE;
        for i in (0..256).rev() {
            r = self.mul(&r, &r);
            if bit(e, i) {
                r = self.mul(&r, a);
            }
        }
        r
    }
    pub fn inv(&self, a: &U) -> U {
        self.pow(a, &sub(&self.p, &small(2)).0)
    }
}

pub fn shr(a: &U, n: usize) -> U {
    let mut r = *a;
    for _ in 0..n {
        for i in 0..4 {
            r[i] = r[i] >> 1 | if i < 3 { r[i + 1] << 63 } else { 0 };
        }
    }
    r
}

// ------------------------------------------------------------------ Edwards 25519 (X:Y:Z:T)
#[derive(Clone, Debug)]
pub struct Ed {
    x: U,
    y: U,
    z: U,
    t: U,
}

impl Ed {
    pub fn affine(x: U, y: U) -> Ed {
        Ed { x, y, z: ONE, t: F25519.mul(&x, &y) }
    }
    pub fn identity() -> Ed {
        Ed::affine(ZERO, ONE)
    }
    pub fn base() -> Ed {
        Ed::affine(ED_BX, ED_BY)
    }
    pub fn add(&self, o: &Ed) -> Ed {
        let f = &F25519;
        let a = f.mul(&f.sub(&self.y, &self.x), &f.sub(&o.y, &o.x));
        let b = f.mul(&f.add(&self.y, &self.x), &f.add(&o.y, &o.x));
        let c = f.mul(&f.mul(&self.t, &f.add(&ED_D, &ED_D)), &o.t);
        let d = f.mul(&f.add(&self.z, &self.z), &o.z);
        let (e, ff, g, h) = (f.sub(&b, &a), f.sub(&d, &c), f.add(&d, &c), f.add(&b, &a));
        Ed { x: f.mul(&e, &ff), y: f.mul(&g, &h), z: f.mul(&ff, &g), t: f.mul(&e, &h) }
    }
    pub fn mul(&self, k: &U) -> Ed {
        let mut r = Ed::identity();
        for i in (0..256).rev() {
            r = r.add(&r);
            if bit(k, i) {
                r = r.add(self);
            }
        }
        r
    }
    pub fn xy(&self) -> (U, U) {
        let zi = F25519.inv(&self.z);
        (F25519.mul(&self.x, &zi), F25519.mul(&self.y, &zi))
    }
    pub fn compress(&self) -> [u8; 32] {
        let (x, y) = self.xy();
        let mut b = to_le(&y);
        b[31] |= (x[0] as u8 & 1) << 7;
        b
    }
    pub fn decompress(b: &[u8]) -> Option<Ed> {
        let f = &F25519;
        let mut c = b.to_vec();
        let sign = c[31] >> 7;
        c[31] &= 0x7f;
        let y = f.red(&from_le(&c));
        let yy = f.mul(&y, &y);
        let u = f.sub(&yy, &ONE);
        let v = f.add(&f.mul(&ED_D, &yy), &ONE);
        let w = f.mul(&u, &f.inv(&v));
        // candidate root w^((p+3)/8)
        let e = shr(&add(&P25519, &small(3)).0, 3);
        let mut x = f.pow(&w, &e);
        if f.mul(&x, &x) != w {
            x = f.mul(&x, &SQRTM1);
            if f.mul(&x, &x) != w {
                return None;
            }
        }
        if x[0] as u8 & 1 != sign {
            x = f.neg(&x);
        }
        Some(Ed::affine(x, y))
    }
    /// u coordinate of the birationally equivalent Montgomery point
    pub fn montgomery(&self) -> [u8; 32] {
        let f = &F25519;
        let (_, y) = self.xy();
        to_le(&f.mul(&f.add(&ONE, &y), &f.inv(&f.sub(&ONE, &y))))
    }
}

/// RFC 7748 ladder without clamping, 255 bits.
pub fn ladder(u: &[u8], k: &U) -> [u8; 32] {
    let f = &F25519;
    let mut ub = u.to_vec();
    ub[31] &= 0x7f;
    let x1 = f.red(&from_le(&ub));
    let (mut x2, mut z2, mut x3, mut z3) = (ONE, ZERO, x1, ONE);
    for i in (0..255).rev() {
        let b = bit(k, i);
        if b {
            std::mem::swap(&mut x2, &mut x3);
            std::mem::swap(&mut z2, &mut z3);
        }
        let a = f.add(&x2, &z2);
        let aa = f.mul(&a, &a);
        let bb_ = f.sub(&x2, &z2);
        let bb = f.mul(&bb_, &bb_);
        let e = f.sub(&aa, &bb);
        let c = f.add(&x3, &z3);
        let d = f.sub(&x3, &z3);
        let da = f.mul(&d, &a);
        let cb = f.mul(&c, &bb_);
        let s = f.add(&da, &cb);
        x3 = f.mul(&s, &s);
        let s = f.sub(&da, &cb);
        z3 = f.mul(&x1, &f.mul(&s, &s));
        x2 = f.mul(&aa, &bb);
        z2 = f.mul(&e, &f.add(&aa, &f.mul(&small(121665), &e)));
        if b {
            std::mem::swap(&mut x2, &mut x3);
            std::mem::swap(&mut z2, &mut z3);
        }
    }
    to_le(&f.mul(&x2, &f.inv(&z2)))
}

// ------------------------------------------------------------------ secp256k1 (projective)
#[derive(Clone, Debug)]
pub struct Sp {
    x: U,
    y: U,
    z: U,
}

impl Sp {
    pub fn affine(x: U, y: U) -> Sp {
        Sp { x, y, z: ONE }
    }
    pub fn base() -> Sp {
        Sp::affine(SECP_GX, SECP_GY)
    }
    pub fn infinity() -> Sp {
        Sp { x: ZERO, y: ONE, z: ZERO }
    }
    pub fn is_infinity(&self) -> bool {
        self.z == ZERO
    }
    pub fn neg(&self) -> Sp {
        Sp { x: self.x, y: FSECP.neg(&self.y), z: self.z }
    }
    /// complete addition for a = 0, b = 7
    pub fn add(&self, o: &Sp) -> Sp {
        let f = &FSECP;
        let b3 = small(21);
        let t0 = f.mul(&self.x, &o.x);
        let t1 = f.mul(&self.y, &o.y);
        let t2 = f.mul(&self.z, &o.z);
        let t3 = f.mul(&f.add(&self.x, &self.y), &f.add(&o.x, &o.y));
        let t3 = f.sub(&t3, &f.add(&t0, &t1));
        let t4 = f.mul(&f.add(&self.y, &self.z), &f.add(&o.y, &o.z));
        let t4 = f.sub(&t4, &f.add(&t1, &t2));
        let y3 = f.mul(&f.add(&self.x, &self.z), &f.add(&o.x, &o.z));
        let y3 = f.sub(&y3, &f.add(&t0, &t2));
        let t0 = f.add(&t0, &f.add(&t0, &t0));
        let t2 = f.mul(&b3, &t2);
        let z3 = f.add(&t1, &t2);
        let t1 = f.sub(&t1, &t2);
        let y3 = f.mul(&b3, &y3);
        Sp {
            x: f.sub(&f.mul(&t3, &t1), &f.mul(&t4, &y3)),
            y: f.add(&f.mul(&t1, &z3), &f.mul(&y3, &t0)),
            z: f.add(&f.mul(&z3, &t4), &f.mul(&t0, &t3)),
        }
    }
    pub fn mul(&self, k: &U) -> Sp {
        let mut r = Sp::infinity();
        for i in (0..256).rev() {
            r = r.add(&r);
            if bit(k, i) {
                r = r.add(self);
            }
        }
        r
    }
    pub fn xy(&self) -> (U, U) {
        let zi = FSECP.inv(&self.z);
        (FSECP.mul(&self.x, &zi), FSECP.mul(&self.y, &zi))
    }
    /// 64 bytes x || y
    pub fn line(&self) -> Vec<u8> {
        let (x, y) = self.xy();
        [to_be(&x), to_be(&y)].concat()
    }
    /// 33 bytes
    pub fn compress(&self) -> Vec<u8> {
        let (x, y) = self.xy();
        let mut v = vec![2 + (y[0] as u8 & 1)];
        v.extend(to_be(&x));
        v
    }
    pub fn from_line(b: &[u8]) -> Option<Sp> {
        let (x, y) = (from_be(&b[..32]), from_be(&b[32..64]));
        if !lt(&x, &SECP_P) || !lt(&y, &SECP_P) {
            return None;
        }
        let f = &FSECP;
        let rhs = f.add(&f.mul(&x, &f.mul(&x, &x)), &small(7));
        (f.mul(&y, &y) == rhs).then(|| Sp::affine(x, y))
    }
    pub fn decompress(b: &[u8]) -> Option<Sp> {
        if b[0] != 2 && b[0] != 3 {
            return None;
        }
        let x = from_be(&b[1..33]);
        if !lt(&x, &SECP_P) {
            return None;
        }
        let f = &FSECP;
        let rhs = f.add(&f.mul(&x, &f.mul(&x, &x)), &small(7));
        let y = f.pow(&rhs, &shr(&add(&SECP_P, &ONE).0, 2)); // p+1 does not overflow
        if f.mul(&y, &y) != rhs {
            return None;
        }
        let y = if y[0] as u8 & 1 != b[0] & 1 { f.neg(&y) } else { y };
        Some(Sp::affine(x, y))
    }
}
