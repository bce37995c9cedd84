//! Reference model of the (first-round) Kyber KEM with q = 7681, n = 256, in the variant this
//! repository implements: one hash H = SHA3-256, G = SHA3-512, XOF = SHAKE128, PRF = SHAKE256,
//! H(pk) supplied by the caller, secret key = packed NTT-domain vector followed by the 32-byte
//! rejection secret. Plain modular arithmetic: coefficients are always canonical (0..q), the
//! transform is written directly from its definition.
use sha3::digest::{ExtendableOutput, FixedOutput, Update, XofReader};
use sha3::{Sha3_256, Sha3_512, Shake128, Shake256};
use std::sync::OnceLock;

pub const Q: u32 = 7681;
pub const N: usize = 256;
pub type P = [u32; N];

pub fn h256(parts: &[&[u8]]) -> [u8; 32] {
    let mut d = Sha3_256::default();
    for p in parts {
        d.update(p);
    }
    let mut o = [0; 32];
    o.copy_from_slice(&d.finalize_fixed());
    o
}

pub fn g512(parts: &[&[u8]]) -> [u8; 64] {
    let mut d = Sha3_512::default();
    for p in parts {
        d.update(p);
    }
    let mut o = [0; 64];
    o.copy_from_slice(&d.finalize_fixed());
    o
}

fn pow(mut b: u32, mut e: u32) -> u32 {
    let mut r = 1u32;
    b %= Q;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % Q;
        }
        b = b * b % Q;
        e >>= 1;
    }
    r
}

struct Tables {
    /// psi^i for i in 0..512, psi a primitive 512-th root of unity
    psi: [u32; 512],
    /// exponent of the evaluation point of slot i: 2*bitrev8(i)+1
    point: [usize; N],
}

fn tables() -> &'static Tables {
    static T: OnceLock<Tables> = OnceLock::new();
    T.get_or_init(|| {
        const PSI: u32 = 62;
        assert_eq!(pow(PSI, 256), Q - 1);
        let mut psi = [1u32; 512];
        for i in 1..512 {
            psi[i] = psi[i - 1] * PSI % Q;
        }
        let mut point = [0; N];
        for (i, p) in point.iter_mut().enumerate() {
            *p = 2 * ((i as u8).reverse_bits() as usize) + 1;
        }
        Tables { psi, point }
    })
}

/// Evaluate at the odd powers of psi. Decimation-in-time recursion on X^n - psi^r, written with
/// canonical arithmetic only: f mod (X^m - w) splits into f mod (X^{m/2} -/+ sqrt(w)).
pub fn ntt(f: &P) -> P {
    let t = tables();
    let mut out = *f;
    // node: slice of length m holding f mod (X^m - psi^e); start: X^256 - psi^256 (= X^256 + 1)
    fn rec(t: &Tables, s: &mut [u32], e: usize) {
        let m = s.len();
        if m == 1 {
            return;
        }
        let h = m / 2;
        // X^m - psi^e = (X^h - psi^{e/2}) (X^h + psi^{e/2}); -1 = psi^256
        let w = t.psi[e / 2];
        let (a, b) = s.split_at_mut(h);
        for i in 0..h {
            let x = a[i];
            let y = b[i] * w % Q;
            a[i] = (x + y) % Q;
            b[i] = (x + Q - y) % Q;
        }
        rec(t, a, e / 2);
        rec(t, b, (e / 2 + 256) % 512);
    }
    rec(t, &mut out, 256);
    out
}

/// The same map from its definition, O(n^2): used to validate `ntt`.
pub fn ntt_naive(f: &P) -> P {
    let t = tables();
    let mut o = [0; N];
    for i in 0..N {
        let mut acc = 0u64;
        for (k, c) in f.iter().enumerate() {
            acc += (*c as u64) * t.psi[(t.point[i] * k) % 512] as u64;
        }
        o[i] = (acc % Q as u64) as u32;
    }
    o
}

pub fn intt(f: &P) -> P {
    let t = tables();
    let mut out = *f;
    fn rec(t: &Tables, s: &mut [u32], e: usize) {
        let m = s.len();
        if m == 1 {
            return;
        }
        let h = m / 2;
        let (a, b) = s.split_at_mut(h);
        rec(t, a, e / 2);
        rec(t, b, (e / 2 + 256) % 512);
        // invert: x = (a+b)/2, y*w = (a-b)/2
        let winv = t.psi[(512 - e / 2) % 512];
        let half = (Q + 1) / 2;
        for i in 0..h {
            let u = (a[i] + b[i]) % Q * half % Q;
            let v = (a[i] + Q - b[i]) % Q * half % Q * winv % Q;
            a[i] = u;
            b[i] = v;
        }
    }
    rec(t, &mut out, 256);
    out
}

/// Negacyclic schoolbook product, used to validate the transform.
pub fn mul_schoolbook(a: &P, b: &P) -> P {
    let mut r = [0u64; N];
    for i in 0..N {
        for j in 0..N {
            let p = (a[i] * b[j] % Q) as u64;
            if i + j < N {
                r[i + j] += p;
            } else {
                r[i + j - N] += (Q as u64) - p;
            }
        }
    }
    let mut o = [0; N];
    for i in 0..N {
        o[i] = (r[i] % Q as u64) as u32;
    }
    o
}

fn pack(f: impl Iterator<Item = u32>, bits: usize, out: &mut Vec<u8>) {
    let mut acc = 0u64;
    let mut n = 0;
    for x in f {
        acc |= (x as u64) << n;
        n += bits;
        while n >= 8 {
            out.push(acc as u8);
            acc >>= 8;
            n -= 8;
        }
    }
    assert_eq!(n, 0);
}

fn unpack(b: &[u8], bits: usize) -> Vec<u32> {
    let mut acc = 0u64;
    let mut n = 0;
    let mut o = vec![];
    for x in b {
        acc |= (*x as u64) << n;
        n += 8;
        while n >= bits {
            o.push((acc & ((1 << bits) - 1)) as u32);
            acc >>= bits;
            n -= bits;
        }
    }
    o
}

fn compress(x: u32, d: u32) -> u32 {
    // round(2^d / q * x) mod 2^d, ties cannot occur because q is odd
    (((x << d) + Q / 2) / Q) & ((1 << d) - 1)
}

fn decompress(x: u32, d: u32) -> u32 {
    (x * Q + (1 << (d - 1))) >> d
}

pub fn eta(k: usize) -> usize {
    match k {
        2 => 5,
        3 => 4,
        4 => 3,
        _ => panic!("k"),
    }
}

fn bit(b: &[u8], i: usize) -> u32 {
    ((b[i / 8] >> (i % 8)) & 1) as u32
}

fn noise(seed: &[u8], nonce: u8, k: usize) -> P {
    let eta = eta(k);
    let mut buf = vec![0; N * 2 * eta / 8];
    Shake256::default()
        .chain(seed)
        .chain([nonce])
        .finalize_xof()
        .read(&mut buf);
    let mut o = [0; N];
    for (i, c) in o.iter_mut().enumerate() {
        let a: u32 = (0..eta).map(|j| bit(&buf, 2 * eta * i + j)).sum();
        let b: u32 = (0..eta).map(|j| bit(&buf, 2 * eta * i + eta + j)).sum();
        *c = (a + Q - b) % Q;
    }
    o
}

fn sample(seed: &[u8], i: u8, j: u8) -> P {
    // entry (i, j) of the public matrix, in the transform domain
    let mut xof = Shake128::default().chain(seed).chain([j, i]).finalize_xof();
    let mut o = [0; N];
    let mut n = 0;
    while n < N {
        let mut two = [0; 2];
        xof.read(&mut two);
        let v = u16::from_le_bytes(two) as u32 & 0x1fff;
        if v < Q {
            o[n] = v;
            n += 1;
        }
    }
    o
}

fn add(a: &P, b: &P) -> P {
    let mut o = [0; N];
    for i in 0..N {
        o[i] = (a[i] + b[i]) % Q;
    }
    o
}

fn dot(a: &[P], b: &[P]) -> P {
    let mut o = [0; N];
    for i in 0..N {
        o[i] = a.iter().zip(b).map(|(x, y)| x[i] * y[i] % Q).sum::<u32>() % Q;
    }
    o
}

pub struct Keys {
    pub pk: Vec<u8>,
    /// packed secret vector followed by rejection secret
    pub sk: Vec<u8>,
}

fn matrix(seed: &[u8], k: usize) -> Vec<Vec<P>> {
    (0..k)
        .map(|i| (0..k).map(|j| sample(seed, i as u8, j as u8)).collect())
        .collect()
}

pub fn keygen(k: usize, seed: &[u8; 64]) -> Keys {
    let g = g512(&[&seed[..32]]);
    let (rho, sigma) = g.split_at(32);
    let a = matrix(rho, k);
    let s: Vec<P> = (0..k).map(|i| ntt(&noise(sigma, i as u8, k))).collect();
    let mut pk = vec![];
    for i in 0..k {
        let e = noise(sigma, (k + i) as u8, k);
        let t = add(&intt(&dot(&a[i], &s)), &e);
        pack(t.iter().map(|x| compress(*x, 11)), 11, &mut pk);
    }
    pk.extend_from_slice(rho);
    let mut sk = vec![];
    for p in &s {
        pack(p.iter().copied(), 13, &mut sk);
    }
    sk.extend_from_slice(&seed[32..]);
    Keys { pk, sk }
}

fn to_poly(v: &[u32]) -> P {
    let mut o = [0; N];
    for (x, y) in o.iter_mut().zip(v) {
        *x = *y % Q;
    }
    o
}

fn parse_vec(b: &[u8], k: usize, bits: u32) -> Vec<P> {
    let l = 32 * bits as usize;
    (0..k)
        .map(|i| {
            let v: Vec<u32> = unpack(&b[i * l..(i + 1) * l], bits as usize)
                .into_iter()
                .map(|x| decompress(x, bits))
                .collect();
            to_poly(&v)
        })
        .collect()
}

/// CPA encryption of `m` under `coins`.
pub fn enc(k: usize, pk: &[u8], m: &[u8; 32], coins: &[u8; 32]) -> Vec<u8> {
    let t: Vec<P> = parse_vec(pk, k, 11).iter().map(ntt).collect();
    let rho = &pk[352 * k..];
    let a = matrix(rho, k);
    let r: Vec<P> = (0..k).map(|i| ntt(&noise(coins, i as u8, k))).collect();
    let mut ct = vec![];
    for i in 0..k {
        let col: Vec<P> = (0..k).map(|j| a[j][i]).collect();
        let u = add(&intt(&dot(&col, &r)), &noise(coins, (k + i) as u8, k));
        pack(u.iter().map(|x| compress(*x, 11)), 11, &mut ct);
    }
    let mut v = add(&intt(&dot(&t, &r)), &noise(coins, 2 * k as u8, k));
    for i in 0..N {
        v[i] = (v[i] + bit(m, i) * ((Q + 1) / 2)) % Q;
    }
    pack(v.iter().map(|x| compress(*x, 3)), 3, &mut ct);
    ct
}

pub fn dec(k: usize, sk: &[u8], ct: &[u8]) -> [u8; 32] {
    let u: Vec<P> = parse_vec(ct, k, 11).iter().map(ntt).collect();
    let s: Vec<P> = (0..k)
        .map(|i| to_poly(&unpack(&sk[416 * i..416 * (i + 1)], 13)))
        .collect();
    let v: Vec<u32> = unpack(&ct[352 * k..], 3)
        .into_iter()
        .map(|x| decompress(x, 3))
        .collect();
    let su = intt(&dot(&s, &u));
    let mut m = [0u8; 32];
    for i in 0..N {
        let d = (su[i] + Q - v[i] % Q) % Q;
        let b = (((d << 1) + Q / 2) / Q) & 1;
        m[i / 8] |= (b as u8) << (i % 8);
    }
    m
}

pub fn encaps(k: usize, pk: &[u8], pk_hash: &[u8], seed: &[u8; 32]) -> (Vec<u8>, [u8; 32]) {
    let m = h256(&[seed]);
    let g = g512(&[&m, pk_hash]);
    let mut coins = [0; 32];
    coins.copy_from_slice(&g[32..]);
    let ct = enc(k, pk, &m, &coins);
    let ss = h256(&[&g[..32], &h256(&[&ct])]);
    (ct, ss)
}

/// Returns the secret and whether the ciphertext was accepted.
pub fn decaps(k: usize, sk: &[u8], pk: &[u8], pk_hash: &[u8], ct: &[u8]) -> ([u8; 32], bool) {
    let m = dec(k, sk, ct);
    let g = g512(&[&m, pk_hash]);
    let mut coins = [0; 32];
    coins.copy_from_slice(&g[32..]);
    let again = enc(k, pk, &m, &coins);
    let ok = again == ct;
    let pre = if ok { &g[..32] } else { &sk[416 * k..] };
    (h256(&[pre, &h256(&[ct])]), ok)
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn transform() {
        let mut a = [0; N];
        let mut b = [0; N];
        for i in 0..N {
            a[i] = (i as u32 * 7919 + 13) % Q;
            b[i] = (i as u32 * i as u32 * 31 + 5) % Q;
        }
        assert_eq!(ntt(&a), ntt_naive(&a));
        assert_eq!(intt(&ntt(&a)), a);
        let (x, y) = (ntt(&a), ntt(&b));
        let mut z = [0; N];
        for i in 0..N {
            z[i] = x[i] * y[i] % Q;
        }
        assert_eq!(intt(&z), mul_schoolbook(&a, &b));
    }
}
