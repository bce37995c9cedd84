//! Uniform access to the three parameter sets of the KEM through its public API only.
use rac::generic_array::{typenum, GenericArray};
use rac::{LineValid, Concat};
use vru_kyber::{Kem, Kyber};

pub trait K: Sync {
    type Pk;
    type Sk;
    type Ct;
    const W: usize;
    const NAME: &'static str;
    const PK: usize = 352 * Self::W + 32;
    const SK: usize = 416 * Self::W + 32;
    const CT: usize = 352 * Self::W + 96;
    fn keygen(seed: &[u8; 64]) -> (Self::Pk, Self::Sk);
    fn encaps(seed: &[u8; 32], pk: &Self::Pk, h: &[u8; 32]) -> (Self::Ct, [u8; 32]);
    fn decaps(sk: &Self::Sk, pk: &Self::Pk, h: &[u8; 32], ct: &Self::Ct) -> [u8; 32];
    fn pkb(v: &Self::Pk) -> Vec<u8>;
    fn skb(v: &Self::Sk) -> Vec<u8>;
    fn ctb(v: &Self::Ct) -> Vec<u8>;
    fn pkp(b: &[u8]) -> Option<Self::Pk>;
    fn skp(b: &[u8]) -> Option<Self::Sk>;
    fn ctp(b: &[u8]) -> Option<Self::Ct>;
    /// secret vector and rejection secret as the type exposes them
    fn sk_split(v: &Self::Sk) -> (Vec<u8>, Vec<u8>);
}

fn arr32(b: &[u8]) -> [u8; 32] {
    let mut o = [0; 32];
    o.copy_from_slice(b);
    o
}

macro_rules! imp {
    ($name:ident, $w:ty, $n:expr) => {
        pub struct $name;
        impl K for $name {
            type Pk = <Kyber<$w> as Kem>::PublicKey;
            type Sk = <Kyber<$w> as Kem>::SecretKey;
            type Ct = <Kyber<$w> as Kem>::CipherText;
            const W: usize = $n;
            const NAME: &'static str = stringify!($name);
            fn keygen(seed: &[u8; 64]) -> (Self::Pk, Self::Sk) {
                Kyber::<$w>::generate_pair(GenericArray::from_slice(seed))
            }
            fn encaps(seed: &[u8; 32], pk: &Self::Pk, h: &[u8; 32]) -> (Self::Ct, [u8; 32]) {
                let (c, s) = Kyber::<$w>::encapsulate(
                    GenericArray::from_slice(seed),
                    pk,
                    GenericArray::from_slice(h),
                );
                (c, arr32(&s))
            }
            fn decaps(sk: &Self::Sk, pk: &Self::Pk, h: &[u8; 32], ct: &Self::Ct) -> [u8; 32] {
                arr32(&Kyber::<$w>::decapsulate(
                    sk,
                    pk,
                    GenericArray::from_slice(h),
                    ct,
                ))
            }
            fn pkb(v: &Self::Pk) -> Vec<u8> {
                v.clone_line().to_vec()
            }
            fn skb(v: &Self::Sk) -> Vec<u8> {
                v.clone_line().to_vec()
            }
            fn ctb(v: &Self::Ct) -> Vec<u8> {
                v.clone_line().to_vec()
            }
            fn pkp(b: &[u8]) -> Option<Self::Pk> {
                LineValid::try_clone_array(GenericArray::from_slice(b)).ok()
            }
            fn skp(b: &[u8]) -> Option<Self::Sk> {
                LineValid::try_clone_array(GenericArray::from_slice(b)).ok()
            }
            fn ctp(b: &[u8]) -> Option<Self::Ct> {
                LineValid::try_clone_array(GenericArray::from_slice(b)).ok()
            }
            fn sk_split(v: &Self::Sk) -> (Vec<u8>, Vec<u8>) {
                let Concat(a, b) = v;
                (a.clone_line().to_vec(), b.to_vec())
            }
        }
    };
}

imp!(Kyber2, typenum::U2, 2);
imp!(Kyber3, typenum::U3, 3);
imp!(Kyber4, typenum::U4, 4);
