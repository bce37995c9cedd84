//! Byte-level access to the real handshake functions for several payload sizes.
use rac::generic_array::{typenum as tn, GenericArray};
use rac::{Array, Concat, Line, LineValid};
use vru_kyber::{Kem, Kyber};
use vru_session::handshake::{xx, Identity, PublicKey, SecretKey, TrivialCipher, TrivialRotor};

pub type Ct = <Kyber<tn::U3> as Kem>::CipherText;
type Enc<N> = Concat<Array<N>, Array<tn::U16>>;
type PkBytes = xx::Message0;
type EncPk = Concat<Array<<PkBytes as LineValid>::Length>, Array<tn::U16>>;

fn ga<N: rac::generic_array::ArrayLength<u8>>(b: &[u8]) -> Array<N> {
    GenericArray::clone_from_slice(b)
}

pub fn pk_bytes(b: &[u8]) -> PkBytes {
    PkBytes::clone_array(GenericArray::from_slice(b))
}
pub fn ct(b: &[u8]) -> Ct {
    Ct::try_clone_array(GenericArray::from_slice(b)).ok().expect("ciphertext")
}
fn line<L: LineValid>(l: &L) -> Vec<u8> {
    l.clone_line().to_vec()
}

pub type Accepted2 = (TrivialCipher, Vec<u8>, PublicKey, Vec<u8>, Vec<u8>, Vec<u8>);

pub trait Hs {
    fn sizes(&self) -> [usize; 4];
    fn respond(&self, seed: &[u8], pi: &Identity, pk: &PublicKey, sk: &SecretKey, m0: &[u8], p: &[u8]) -> (xx::RespondersEphemeral, Vec<u8>);
    fn confirm(
        &self, seed: &[u8], st: xx::InitiatorsEphemeral, pk: &PublicKey, sk: &SecretKey, m1: &[u8], q: &[u8], r: &[u8],
    ) -> Result<(xx::InitiatorsFinal, PublicKey, Vec<u8>, Vec<u8>), String>;
    fn accept(&self, seed: &[u8], st: xx::RespondersEphemeral, pk: &PublicKey, sk: &SecretKey, m2: &[u8], s: &[u8]) -> Result<Accepted2, String>;
    fn finish(&self, st: xx::InitiatorsFinal, pk: &PublicKey, sk: &SecretKey, m3: &[u8]) -> Result<(TrivialCipher, Vec<u8>, Vec<u8>), String>;
}

pub fn out0(seed: &[u8], pi: &Identity) -> (xx::InitiatorsEphemeral, Vec<u8>) {
    let (st, m) = xx::out0(&ga(seed), pi);
    (st, line(&m))
}

macro_rules! hs {
    ($name:ident, $p:ty, $q:ty, $r:ty, $s:ty) => {
        pub struct $name;
        impl Hs for $name {
            fn sizes(&self) -> [usize; 4] {
                use tn::Unsigned;
                [<$p>::USIZE, <$q>::USIZE, <$r>::USIZE, <$s>::USIZE]
            }
            fn respond(&self, seed: &[u8], pi: &Identity, pk: &PublicKey, sk: &SecretKey, m0: &[u8], p: &[u8]) -> (xx::RespondersEphemeral, Vec<u8>) {
                let seed = Concat(ga::<tn::U96>(&seed[..96]), ga::<tn::U32>(&seed[96..]));
                let (st, (a, b, c)) = xx::take0_out1::<Array<$p>>(&seed, pi, pk, sk, pk_bytes(m0), ga(p));
                let mut m = line(&a);
                m.extend(line(&b));
                m.extend(line(&c));
                (st, m)
            }
            fn confirm(
                &self, seed: &[u8], st: xx::InitiatorsEphemeral, pk: &PublicKey, sk: &SecretKey, m1: &[u8], q: &[u8], r: &[u8],
            ) -> Result<(xx::InitiatorsFinal, PublicKey, Vec<u8>, Vec<u8>), String> {
                let n = self.sizes()[0];
                let seed = Concat(ga::<tn::U32>(&seed[..32]), ga::<tn::U32>(&seed[32..]));
                let a = Concat(ct(&m1[..1152]), Enc::<$p>::clone_array(GenericArray::from_slice(&m1[1152..1168 + n])));
                let b = pk_bytes(&m1[1168 + n..2288 + n]);
                let c = EncPk::clone_array(GenericArray::from_slice(&m1[2288 + n..]));
                let (st, pk, p, (a, b, c)) =
                    xx::take1_out2::<Array<$p>, Array<$q>, Array<$r>>(&seed, st, pk, sk, (a, b, c), ga(q), ga(r)).map_err(|e| format!("{:?}", e))?;
                let mut m = line(&a);
                m.extend(line(&b));
                m.extend(line(&c));
                Ok((st, pk, p.to_vec(), m))
            }
            fn accept(&self, seed: &[u8], st: xx::RespondersEphemeral, pk: &PublicKey, sk: &SecretKey, m2: &[u8], s: &[u8]) -> Result<Accepted2, String> {
                let n = self.sizes()[1];
                let a = Concat(ct(&m2[..1152]), Enc::<$q>::clone_array(GenericArray::from_slice(&m2[1152..1168 + n])));
                let b = ct(&m2[1168 + n..2320 + n]);
                let c = Concat(
                    EncPk::clone_array(GenericArray::from_slice(&m2[2320 + n..3456 + n])),
                    Enc::<$r>::clone_array(GenericArray::from_slice(&m2[3456 + n..])),
                );
                let (c, h, pk, q, r, m) =
                    xx::take2_out3::<Array<$q>, Array<$r>, Array<$s>, TrivialRotor>(&ga(seed), st, pk, sk, (a, b, c), ga(s)).map_err(|e| format!("{:?}", e))?;
                Ok((c, h.to_vec(), pk, q.to_vec(), r.to_vec(), line(&m)))
            }
            fn finish(&self, st: xx::InitiatorsFinal, pk: &PublicKey, sk: &SecretKey, m3: &[u8]) -> Result<(TrivialCipher, Vec<u8>, Vec<u8>), String> {
                let m = Concat(ct(&m3[..1152]), Enc::<$s>::clone_array(GenericArray::from_slice(&m3[1152..])));
                let (c, h, s) = xx::take_3::<Array<$s>, TrivialRotor>(st, pk, sk, m).map_err(|e| format!("{:?}", e))?;
                Ok((c, h.to_vec(), s.to_vec()))
            }
        }
    };
}

hs!(Even, tn::U16, tn::U16, tn::U16, tn::U16);
hs!(Empty, tn::U0, tn::U0, tn::U0, tn::U0);
hs!(Mixed, tn::U1, tn::U33, tn::U120, tn::U200);
hs!(Blocks, tn::U136, tn::U120, tn::U104, tn::U256);
hs!(Big, tn::U900, tn::U64, tn::U0, tn::U7);

pub const ALL: [&(dyn Hs + Sync); 5] = [&Even, &Empty, &Mixed, &Blocks, &Big];

pub fn gen(seed: &[u8]) -> (PublicKey, SecretKey) {
    PublicKey::gen(&ga(seed))
}
pub fn pkb(pk: &PublicKey) -> Vec<u8> {
    line(&pk.compress())
}
