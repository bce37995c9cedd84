//! Independent model of the Noise symmetric state, written from the Noise specification (rev 34):
//! own HMAC/HKDF, own nonce formatting, own transcript bookkeeping. Only the primitive hash
//! functions and AEADs come from library crates.
use aead::{AeadInPlace, NewAead};
use sha2::Digest;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum H {
    Sha256,
    Sha512,
    Sha3_256,
    Sha3_512,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum A {
    ChaCha,
    Aes256,
    Aes128,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Suite {
    pub h: H,
    pub a: A,
}

impl H {
    pub fn len(self) -> usize {
        match self {
            H::Sha256 | H::Sha3_256 => 32,
            _ => 64,
        }
    }
    pub fn block(self) -> usize {
        match self {
            H::Sha256 => 64,
            H::Sha512 => 128,
            H::Sha3_256 => 136,
            H::Sha3_512 => 72,
        }
    }
    pub fn hash(self, parts: &[&[u8]]) -> Vec<u8> {
        let all: Vec<u8> = parts.concat();
        match self {
            H::Sha256 => sha2::Sha256::digest(&all).to_vec(),
            H::Sha512 => sha2::Sha512::digest(&all).to_vec(),
            H::Sha3_256 => sha3::Sha3_256::digest(&all).to_vec(),
            H::Sha3_512 => sha3::Sha3_512::digest(&all).to_vec(),
        }
    }
    pub fn hmac(self, key: &[u8], data: &[u8]) -> Vec<u8> {
        let mut k = if key.len() > self.block() {
            self.hash(&[key])
        } else {
            key.to_vec()
        };
        k.resize(self.block(), 0);
        let i: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
        let o: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
        let inner = self.hash(&[&i, data]);
        self.hash(&[&o, &inner])
    }
    /// Noise HKDF: n outputs of the hash length.
    pub fn hkdf(self, ck: &[u8], ikm: &[u8], n: usize) -> Vec<Vec<u8>> {
        let t = self.hmac(ck, ikm);
        let mut out: Vec<Vec<u8>> = vec![];
        for i in 0..n {
            let mut d = out.last().cloned().unwrap_or_default();
            d.push(i as u8 + 1);
            out.push(self.hmac(&t, &d));
        }
        out
    }
}

impl A {
    pub fn key_len(self) -> usize {
        match self {
            A::Aes128 => 16,
            _ => 32,
        }
    }
    pub fn nonce(self, n: u64) -> [u8; 12] {
        let mut b = [0; 12];
        let bytes = match self {
            A::ChaCha => n.to_le_bytes(),
            _ => n.to_be_bytes(),
        };
        b[4..].copy_from_slice(&bytes);
        b
    }
    pub fn seal(self, key: &[u8], n: u64, ad: &[u8], pt: &[u8]) -> Vec<u8> {
        fn go<T: NewAead + AeadInPlace>(k: &[u8], n: &[u8], ad: &[u8], pt: &[u8]) -> Vec<u8> {
            let c = T::new_from_slice(k).unwrap();
            let mut b = pt.to_vec();
            let nn = aead::Nonce::<T>::from_slice(n);
            let t = c.encrypt_in_place_detached(nn, ad, &mut b).unwrap();
            b.extend_from_slice(&t);
            b
        }
        let nn = self.nonce(n);
        let k = &key[..self.key_len()];
        match self {
            A::ChaCha => go::<chacha20poly1305::ChaCha20Poly1305>(k, &nn, ad, pt),
            A::Aes256 => go::<aes_gcm::Aes256Gcm>(k, &nn, ad, pt),
            A::Aes128 => go::<aes_gcm::Aes128Gcm>(k, &nn, ad, pt),
        }
    }
    pub fn open(self, key: &[u8], n: u64, ad: &[u8], ct: &[u8]) -> Option<Vec<u8>> {
        fn go<T: NewAead + AeadInPlace>(k: &[u8], n: &[u8], ad: &[u8], ct: &[u8]) -> Option<Vec<u8>> {
            let c = T::new_from_slice(k).unwrap();
            let p = ct.len().checked_sub(16)?;
            let mut b = ct[..p].to_vec();
            let nn = aead::Nonce::<T>::from_slice(n);
            let tag = aead::Tag::<T>::from_slice(&ct[p..]);
            c.decrypt_in_place_detached(nn, ad, &mut b, tag).ok()?;
            Some(b)
        }
        let nn = self.nonce(n);
        let k = &key[..self.key_len()];
        match self {
            A::ChaCha => go::<chacha20poly1305::ChaCha20Poly1305>(k, &nn, ad, ct),
            A::Aes256 => go::<aes_gcm::Aes256Gcm>(k, &nn, ad, ct),
            A::Aes128 => go::<aes_gcm::Aes128Gcm>(k, &nn, ad, ct),
        }
    }
}

#[derive(Clone)]
pub struct Sym {
    pub s: Suite,
    pub ck: Vec<u8>,
    pub h: Vec<u8>,
    pub k: Option<(Vec<u8>, u64)>,
}

impl Sym {
    pub fn new(s: Suite, name: &[u8]) -> Sym {
        let h = if name.len() <= s.h.len() {
            let mut v = name.to_vec();
            v.resize(s.h.len(), 0);
            v
        } else {
            s.h.hash(&[name])
        };
        Sym {
            s,
            ck: h.clone(),
            h,
            k: None,
        }
    }
    pub fn mix_hash(&mut self, d: &[u8]) {
        self.h = self.s.h.hash(&[&self.h, d]);
    }
    pub fn mix_key(&mut self, d: &[u8]) {
        let o = self.s.h.hkdf(&self.ck, d, 2);
        self.ck = o[0].clone();
        self.k = Some((o[1][..self.s.a.key_len()].to_vec(), 0));
    }
    pub fn mix_key_and_hash(&mut self, d: &[u8]) {
        let o = self.s.h.hkdf(&self.ck, d, 3);
        self.ck = o[0].clone();
        self.mix_hash(&o[1]);
        self.k = Some((o[2][..self.s.a.key_len()].to_vec(), 0));
    }
    /// Returns ciphertext || tag.
    pub fn encrypt_and_hash(&mut self, pt: &[u8]) -> Vec<u8> {
        let h = self.h.clone();
        let a = self.s.a;
        let (k, n) = self.k.as_mut().expect("keyed");
        let ct = a.seal(k, *n, &h, pt);
        *n += 1;
        self.mix_hash(&ct);
        ct
    }
    pub fn decrypt_and_hash(&mut self, ct: &[u8]) -> Option<Vec<u8>> {
        let h = self.h.clone();
        let a = self.s.a;
        let (k, n) = self.k.as_mut().expect("keyed");
        let pt = a.open(k, *n, &h, ct)?;
        *n += 1;
        self.mix_hash(ct);
        Some(pt)
    }
    pub fn split(&self) -> (Vec<u8>, Vec<u8>) {
        let o = self.s.h.hkdf(&self.ck, &[], 2);
        let l = self.s.a.key_len();
        (o[0][..l].to_vec(), o[1][..l].to_vec())
    }
}
