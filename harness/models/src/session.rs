//! Independent model of the authenticated key exchange:
//!   -> e
//!   <- ec, (p), e, ee, s, es
//!   -> ec, (q), sc, s, se, (r)
//!   <- sc, (s)
//! over a hybrid key (Edwards 25519 point + Kyber768 of the crate), the dialled identity hashed in
//! first. Built on the Noise and Kyber models; only curve25519-dalek is shared with the code.
use crate::{kyber, noise::*};
use curve25519_dalek::{constants::ED25519_BASEPOINT_TABLE, edwards::CompressedEdwardsY, scalar::Scalar};

pub const K: usize = 3;
pub const PK: usize = 1120;
pub const CT: usize = 1152;
pub const TAG: usize = 16;
pub const NAME: &str = "Noise_XX_25519+Kyber_ChaChaPoly_SHA256";

#[derive(Clone)]
pub struct Key {
    scalar: Scalar,
    pub elliptic: [u8; 32],
    pub lattice: Vec<u8>,
    lattice_sk: Vec<u8>,
}

pub fn clamp(b: &[u8]) -> Scalar {
    let mut x: [u8; 32] = b.try_into().unwrap();
    x[0] &= 0xf8;
    x[31] = (x[31] & 0x7f) | 0x40;
    Scalar::from_bits(x)
}

impl Key {
    pub fn generate(seed: &[u8]) -> Key {
        let scalar = clamp(&seed[..32]);
        let kp = kyber::keygen(K, seed[32..96].try_into().unwrap());
        Key {
            elliptic: (&ED25519_BASEPOINT_TABLE * &scalar).compress().to_bytes(),
            scalar,
            lattice: kp.pk,
            lattice_sk: kp.sk,
        }
    }
    pub fn public(&self) -> Vec<u8> {
        let mut v = self.elliptic.to_vec();
        v.extend_from_slice(&self.lattice);
        v
    }
    pub fn identity(&self) -> Vec<u8> {
        identity(&self.public())
    }
    pub fn dh(&self, public: &[u8]) -> Vec<u8> {
        dh(&self.scalar, public)
    }
    pub fn decapsulate(&self, ct: &[u8]) -> [u8; 32] {
        let h = H::Sha3_256.hash(&[&self.lattice]);
        kyber::decaps(K, &self.lattice_sk, &self.lattice, &h, ct).0
    }
}

pub fn identity(public: &[u8]) -> Vec<u8> {
    H::Sha3_256.hash(&[public])
}

pub fn decodable(public: &[u8]) -> bool {
    CompressedEdwardsY::from_slice(&public[..32]).decompress().is_some()
}

pub fn dh(s: &Scalar, public: &[u8]) -> Vec<u8> {
    let p = CompressedEdwardsY::from_slice(&public[..32]).decompress().expect("point");
    (p * s).compress().to_bytes().to_vec()
}

pub fn encapsulate(public: &[u8], seed: &[u8]) -> (Vec<u8>, [u8; 32]) {
    let l = &public[32..];
    let h = H::Sha3_256.hash(&[l]);
    kyber::encaps(K, l, &h, seed.try_into().unwrap())
}

#[derive(Clone)]
pub struct Seeds {
    pub i_s: Vec<u8>,    // 96
    pub r_s: Vec<u8>,    // 96
    pub i_e: Vec<u8>,    // 96
    pub r_e: Vec<u8>,    // 96
    pub r_ec: Vec<u8>,   // 32: responder -> initiator's ephemeral
    pub i_ec: Vec<u8>,   // 32: initiator -> responder's ephemeral
    pub i_sc: Vec<u8>,   // 32: initiator -> responder's static
    pub r_sc: Vec<u8>,   // 32: responder -> initiator's static
}

pub struct Run {
    pub messages: [Vec<u8>; 4],
    pub hash: Vec<u8>,
    /// keys of the initiator->responder and responder->initiator directions
    pub keys: (Vec<u8>, Vec<u8>),
    pub i: Key,
    pub r: Key,
}

/// The honest run, from a single transcript's point of view.
pub fn run(s: &Seeds, payloads: [&[u8]; 4]) -> Run {
    let (i, r) = (Key::generate(&s.i_s), Key::generate(&s.r_s));
    let (ie, re) = (Key::generate(&s.i_e), Key::generate(&s.r_e));
    let suite = Suite { h: H::Sha3_256, a: A::ChaCha };
    let mut t = Sym::new(suite, NAME.as_bytes());
    t.mix_hash(&r.identity());
    // -> e
    let m0 = ie.public();
    t.mix_hash(&m0);
    // <- ec, (p), e, ee, s, es
    let mut m1 = vec![];
    let (ct, ss) = encapsulate(&ie.public(), &s.r_ec);
    m1.extend(ct);
    t.mix_key(&ss);
    m1.extend(t.encrypt_and_hash(payloads[0]));
    m1.extend(re.public());
    t.mix_hash(&re.public());
    t.mix_key(&ie.dh(&re.elliptic));
    m1.extend(t.encrypt_and_hash(&r.public()));
    t.mix_key(&ie.dh(&r.elliptic));
    // -> ec, (q), sc, s, se, (r)
    let mut m2 = vec![];
    let (ct, ss) = encapsulate(&re.public(), &s.i_ec);
    m2.extend(ct);
    t.mix_key(&ss);
    m2.extend(t.encrypt_and_hash(payloads[1]));
    let (ct, ss) = encapsulate(&r.public(), &s.i_sc);
    m2.extend(ct);
    t.mix_key(&ss);
    m2.extend(t.encrypt_and_hash(&i.public()));
    t.mix_key(&i.dh(&re.elliptic));
    m2.extend(t.encrypt_and_hash(payloads[2]));
    // <- sc, (s)
    let mut m3 = vec![];
    let (ct, ss) = encapsulate(&i.public(), &s.r_sc);
    m3.extend(ct);
    t.mix_key(&ss);
    m3.extend(t.encrypt_and_hash(payloads[3]));
    let keys = t.split();
    Run { messages: [m0, m1, m2, m3], hash: t.h, keys, i, r }
}
