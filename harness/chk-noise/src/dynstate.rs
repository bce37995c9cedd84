//! Type-erased access to the real symmetric state (its nonce counter lives in the type).
use aead::{AeadInPlace, NewAead};
use generic_array::{typenum::*, GenericArray};
use std::marker::PhantomData;
use vru_noise::{ChainingKey, Cipher, Config, Key, Rotor, SymmetricState};

pub type Chan<C> = Cipher<C, PhantomData<C>>;

pub trait Transport {
    fn encrypt(&mut self, ad: &[u8], b: &mut [u8]) -> Vec<u8>;
    fn decrypt(&mut self, ad: &[u8], b: &mut [u8], tag: &[u8]) -> bool;
    fn encrypt_ext(&mut self, ad: &[u8], b: &mut Vec<u8>);
    fn decrypt_ext(&mut self, ad: &[u8], b: &mut Vec<u8>) -> bool;
    /// Use the send/receive halves separately.
    fn send_half(&mut self, ad: &[u8], b: &mut [u8]) -> Vec<u8>;
    fn receive_half(&mut self, ad: &[u8], b: &mut [u8], tag: &[u8]) -> bool;
    fn swap(self: Box<Self>) -> Box<dyn Transport>;
    fn dup(&self) -> Box<dyn Transport>;
}

impl<C, R> Transport for Cipher<C, R>
where
    C: Config + Clone + 'static,
    R: Rotor<C> + Clone + 'static,
{
    fn encrypt(&mut self, ad: &[u8], b: &mut [u8]) -> Vec<u8> {
        Cipher::encrypt(self, ad, b).to_vec()
    }
    fn decrypt(&mut self, ad: &[u8], b: &mut [u8], tag: &[u8]) -> bool {
        Cipher::decrypt(self, ad, b, GenericArray::from_slice(tag)).is_ok()
    }
    fn encrypt_ext(&mut self, ad: &[u8], b: &mut Vec<u8>) {
        Cipher::encrypt_ext(self, ad, b)
    }
    fn decrypt_ext(&mut self, ad: &[u8], b: &mut Vec<u8>) -> bool {
        Cipher::decrypt_ext(self, ad, b).is_ok()
    }
    fn send_half(&mut self, ad: &[u8], b: &mut [u8]) -> Vec<u8> {
        self.send.encrypt(ad, b).to_vec()
    }
    fn receive_half(&mut self, ad: &[u8], b: &mut [u8], tag: &[u8]) -> bool {
        self.receive.decrypt(ad, b, GenericArray::from_slice(tag)).is_ok()
    }
    fn swap(self: Box<Self>) -> Box<dyn Transport> {
        Box::new(Cipher::swap(*self))
    }
    fn dup(&self) -> Box<dyn Transport> {
        Box::new(Cipher {
            send: self.send.clone(),
            receive: self.receive.clone(),
        })
    }
}

pub trait State {
    fn hash(&self) -> Vec<u8>;
    fn keyed(&self) -> bool;
    fn mix_hash(self: Box<Self>, d: &[u8]) -> Box<dyn State>;
    fn mix_secret(self: Box<Self>, d: &[u8]) -> Box<dyn State>;
    fn mix_psk(self: Box<Self>, d: &[u8]) -> Box<dyn State>;
    /// `b` becomes ciphertext; returns the tag.
    fn encrypt(self: Box<Self>, b: &mut [u8]) -> (Box<dyn State>, Vec<u8>);
    fn encrypt_ext(self: Box<Self>, b: &mut Vec<u8>) -> Box<dyn State>;
    fn decrypt(self: Box<Self>, b: &mut [u8], tag: &[u8]) -> Option<Box<dyn State>>;
    fn finish(self: Box<Self>) -> (Box<dyn Transport>, Vec<u8>);
    /// A channel whose keys are rotated after every so many messages.
    fn finish_rotating(self: Box<Self>, kind: usize) -> Box<dyn Transport>;
}

/// Rotation by hashing, as a user of the crate would write it.
#[derive(Clone)]
pub struct Rot<const I: u64> {
    chain: Vec<u8>,
    key: Vec<u8>,
}

impl<const I: u64, C> Rotor<C> for Rot<I>
where
    C: Config,
{
    const INTERVAL: u64 = I;
    fn new(chaining_key: ChainingKey<C>, key: vru_noise::Aead<C>) -> Self {
        Rot { chain: chaining_key.to_vec(), key: key.to_vec() }
    }
    fn rotate(&mut self, key: &mut C::Aead) {
        use sha2::Digest;
        let h = sha2::Sha512::new().chain(&self.chain).chain(&self.key).finalize();
        let n = self.key.len();
        self.key = h[..n].to_vec();
        self.chain = h[32..].to_vec();
        *key = C::Aead::new(GenericArray::from_slice(&self.key));
    }
}

/// The intervals of `finish_rotating`.
pub const ROTATIONS: [u64; 6] = [1, 2, 3, 5, 16, 64];

pub trait Cfg: Config + Sized + 'static {
    fn start(name: &str) -> Box<dyn State>;
}

pub struct S<C: Config, K>(pub SymmetricState<C, K>);


macro_rules! common {
    ($c:ty) => {
        fn hash(&self) -> Vec<u8> {
            self.0.hash().to_vec()
        }
        fn mix_hash(self: Box<Self>, d: &[u8]) -> Box<dyn State> {
            Box::new(S(self.0.mix_hash(d)))
        }
        fn mix_secret(self: Box<Self>, d: &[u8]) -> Box<dyn State> {
            Box::new(S::<$c, Key<$c, U0>>(self.0.mix_shared_secret(d)))
        }
        fn mix_psk(self: Box<Self>, d: &[u8]) -> Box<dyn State> {
            Box::new(S::<$c, Key<$c, U0>>(self.0.mix_psk(d)))
        }
        fn finish(self: Box<Self>) -> (Box<dyn Transport>, Vec<u8>) {
            let (c, h) = self.0.finish::<PhantomData<$c>>();
            (Box::new(c), h.to_vec())
        }
        fn finish_rotating(self: Box<Self>, kind: usize) -> Box<dyn Transport> {
            match kind {
                0 => Box::new(self.0.finish::<Rot<1>>().0),
                1 => Box::new(self.0.finish::<Rot<2>>().0),
                2 => Box::new(self.0.finish::<Rot<3>>().0),
                3 => Box::new(self.0.finish::<Rot<5>>().0),
                4 => Box::new(self.0.finish::<Rot<16>>().0),
                _ => Box::new(self.0.finish::<Rot<64>>().0),
            }
        }
    };
}


macro_rules! keyed {
    ($c:ty; $($n:ty => $m:ty),*) => { $(
        impl State for S<$c, Key<$c, $n>> {
            common!($c);
            fn keyed(&self) -> bool { true }
            fn encrypt(self: Box<Self>, b: &mut [u8]) -> (Box<dyn State>, Vec<u8>) {
                let (s, t) = self.0.encrypt(b);
                (Box::new(S::<$c, Key<$c, $m>>(s)), t.to_vec())
            }
            fn encrypt_ext(self: Box<Self>, b: &mut Vec<u8>) -> Box<dyn State> {
                let s = self.0.encrypt_ext(b);
                Box::new(S::<$c, Key<$c, $m>>(s))
            }
            fn decrypt(self: Box<Self>, b: &mut [u8], tag: &[u8]) -> Option<Box<dyn State>> {
                let s = self.0.decrypt(b, GenericArray::clone_from_slice(tag)).ok()?;
                Some(Box::new(S::<$c, Key<$c, $m>>(s)))
            }
        }
    )* }
}

/// After this many messages under one handshake key the scripts must mix again.
pub const MAX_MSGS: usize = 13;


macro_rules! dynstate_suite {
    ($c:ty) => {
        impl Cfg for $c {
            fn start(name: &str) -> Box<dyn State> {
                Box::new(S::<$c, ChainingKey<$c>>(SymmetricState::new(name)))
            }
        }
        impl State for S<$c, ChainingKey<$c>> {
            common!($c);
            fn keyed(&self) -> bool {
                false
            }
            fn encrypt(self: Box<Self>, _: &mut [u8]) -> (Box<dyn State>, Vec<u8>) {
                unreachable!()
            }
            fn encrypt_ext(self: Box<Self>, _: &mut Vec<u8>) -> Box<dyn State> {
                unreachable!()
            }
            fn decrypt(self: Box<Self>, _: &mut [u8], _: &[u8]) -> Option<Box<dyn State>> {
                unreachable!()
            }
        }
        keyed!($c; U0 => U1, U1 => U2, U2 => U3, U3 => U4, U4 => U5, U5 => U6, U6 => U7, U7 => U8,
            U8 => U9, U9 => U10, U10 => U11, U11 => U12, U12 => U13);
        impl State for S<$c, Key<$c, U13>> {
            common!($c);
            fn keyed(&self) -> bool { false }
            fn encrypt(self: Box<Self>, _: &mut [u8]) -> (Box<dyn State>, Vec<u8>) { unreachable!() }
            fn encrypt_ext(self: Box<Self>, _: &mut Vec<u8>) -> Box<dyn State> { unreachable!() }
            fn decrypt(self: Box<Self>, _: &mut [u8], _: &[u8]) -> Option<Box<dyn State>> { unreachable!() }
        }
    };
}

pub type C0 = (sha2::Sha256, byteorder::LittleEndian, chacha20poly1305::ChaCha20Poly1305);
pub type C1 = (sha2::Sha512, byteorder::BigEndian, aes_gcm::Aes256Gcm);
pub type C2 = (sha3::Sha3_256, byteorder::LittleEndian, chacha20poly1305::ChaCha20Poly1305);
pub type C3 = (sha3::Sha3_512, byteorder::BigEndian, aes_gcm::Aes128Gcm);
pub type C4 = (sha2::Sha512, byteorder::LittleEndian, chacha20poly1305::ChaCha20Poly1305);
pub type C5 = (sha2::Sha256, byteorder::BigEndian, aes_gcm::Aes256Gcm);
dynstate_suite!(C0);
dynstate_suite!(C1);
dynstate_suite!(C2);
dynstate_suite!(C3);
dynstate_suite!(C4);
dynstate_suite!(C5);

use models::noise::{Suite, A, H};
pub const SUITES: [Suite; 6] = [
    Suite { h: H::Sha256, a: A::ChaCha },
    Suite { h: H::Sha512, a: A::Aes256 },
    Suite { h: H::Sha3_256, a: A::ChaCha },
    Suite { h: H::Sha3_512, a: A::Aes128 },
    Suite { h: H::Sha512, a: A::ChaCha },
    Suite { h: H::Sha256, a: A::Aes256 },
];

pub fn start(suite: usize, name: &str) -> Box<dyn State> {
    match suite {
        0 => C0::start(name),
        1 => C1::start(name),
        2 => C2::start(name),
        3 => C3::start(name),
        4 => C4::start(name),
        _ => C5::start(name),
    }
}

#[allow(unused)]
fn _assert<T: AeadInPlace + NewAead>() {}
