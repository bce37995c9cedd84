#![allow(deprecated, dead_code)]
mod taint;
use taint::*;
#[path = "../../chk-noise/src/dynstate.rs"]
mod dynstate;
#[path = "../../chk-session/src/hs.rs"]
mod hs;
#[path = "../../chk-kem/src/kems.rs"]
mod kems;
use kems::K;
use mon::{Case, Check, Res};

fn arr<const N: usize>(b: &[u8]) -> [u8; N] {
    let mut o = [0; N];
    o.copy_from_slice(b);
    o
}

/// Random, or of a shape that makes unusual values likely.
fn bytes(c: &mut Case, n: usize) -> Vec<u8> {
    match c.rng.below(6) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => {
            let b = c.rng.below(256) as u8;
            vec![b; n]
        }
        _ => c.rng.bytes(n),
    }
}

// ------------------------------------------------------------------ K05
fn kem<T: K>(c: &mut Case) -> Res {
    control(c)?;
    let seed: [u8; 64] = arr(&bytes(c, 64));
    let (pk, sk) = T::keygen(&seed);
    let h: [u8; 32] = arr(&c.rng.bytes(32));
    // encapsulation: the seed is secret, the ciphertext becomes public
    let mut es: [u8; 32] = arr(&bytes(c, 32));
    c.distinct(&[&seed[..], &es[..]].concat());
    secret(&mut es);
    let (ct, ss) = watch(c, "encapsulate", || T::encaps(&es, &pk, &h))?;
    c.count("secret result bytes", tainted(&ss));
    let mut ctb = watch(c, "write a ciphertext", || T::ctb(&ct))?;
    public(&mut ctb);
    // the secret key as read from storage
    let mut skb = T::skb(&sk);
    secret(&mut skb);
    let sk = watch(c, "read a secret key", || T::skp(&skb))?.expect("secret key");
    let honest = T::ctp(&ctb).expect("ciphertext");
    let s = watch(c, "decapsulate", || T::decaps(&sk, &pk, &h, &honest))?;
    c.count("secret result bytes", tainted(&s));
    // altered, foreign and arbitrary ciphertexts
    for k in 0..3 {
        let b = match (c.rng.below(4), k) {
            (0, _) => bytes(c, T::CT),
            (1, _) => {
                let e: [u8; 32] = arr(&c.rng.bytes(32));
                let s2: [u8; 64] = arr(&c.rng.bytes(64));
                T::ctb(&T::encaps(&e, &T::keygen(&s2).0, &h).0)
            }
            _ => {
                let mut b = ctb.clone();
                let i = c.rng.below(b.len() as u64) as usize;
                b[i] ^= 1 << c.rng.below(8);
                b
            }
        };
        c.distinct(&b);
        let bad = T::ctp(&b).expect("ciphertext");
        let s = watch(c, "decapsulate a rejected ciphertext", || T::decaps(&sk, &pk, &h, &bad))?;
        c.count("secret result bytes", tainted(&s));
    }
    let w = watch(c, "write a secret key", || T::skb(&sk))?;
    c.count("secret result bytes", tainted(&w));
    Ok(())
}

// ------------------------------------------------------------------ N06
fn noise(c: &mut Case) -> Res {
    control(c)?;
    let suite = c.rng.below(6) as usize;
    let mut st = dynstate::start(suite, "Noise_XXpsk3_25519_ChaChaPoly_SHA256");
    let mut script = format!("{} ", suite);
    let steps = c.rng.range(3, 9);
    let mut sent = 0;
    for i in 0..steps {
        let n = c.rng.size(64).min(5000) as usize;
        match c.rng.below(if i == 0 { 2 } else { 4 }) {
            0 => {
                let mut d = bytes(c, n.max(1));
                secret(&mut d);
                st = watch(c, "mix a shared secret", || st.mix_secret(&d))?;
                sent = 0;
                script += &format!("secret{} ", n);
            }
            1 => {
                let mut d = bytes(c, n.max(1));
                secret(&mut d);
                st = watch(c, "mix a pre-shared key", || st.mix_psk(&d))?;
                sent = 0;
                script += &format!("psk{} ", n);
            }
            2 => {
                let d = bytes(c, n);
                st = watch(c, "mix a transcript datum", || st.mix_hash(&d))?;
                script += &format!("hash{} ", n);
            }
            _ if st.keyed() && sent < dynstate::MAX_MSGS => {
                let mut d = bytes(c, n);
                secret(&mut d);
                let r = if c.rng.below(2) == 0 {
                    let (s, t) = watch(c, "encrypt a handshake message", || st.encrypt(&mut d))?;
                    c.count("secret result bytes", tainted(&t));
                    s
                } else {
                    watch(c, "encrypt a handshake message", || st.encrypt_ext(&mut d))?
                };
                c.count("secret result bytes", tainted(&d));
                st = r;
                sent += 1;
                script += &format!("message{} ", n);
            }
            _ => {}
        }
    }
    let (mut tr, _) = watch(c, "finish the handshake", || st.finish())?;
    for _ in 0..3 {
        let n = c.rng.size(64).min(20_000) as usize;
        let mut d = bytes(c, n);
        let ad = bytes(c, n % 40);
        secret(&mut d);
        if c.rng.below(2) == 0 {
            watch(c, "encrypt a channel message", || tr.encrypt(&ad, &mut d))?;
        } else {
            watch(c, "encrypt a channel message", || tr.encrypt_ext(&ad, &mut d))?;
        }
        c.count("secret result bytes", tainted(&d));
        script += &format!("send{} ", n);
    }
    c.distinct(script.as_bytes());
    c.sample(|| script.clone());
    Ok(())
}

// ------------------------------------------------------------------ S08
/// A key pair whose curve scalar and rejection value are secret; the public key is public.
fn pair(c: &mut Case) -> Res<(vru_session::handshake::PublicKey, vru_session::handshake::SecretKey)> {
    let mut seed = bytes(c, 96);
    c.distinct(&seed);
    secret(&mut seed[..32]);
    secret(&mut seed[64..]);
    let (pk, sk) = watch(c, "generate a key pair", || hs::gen(&seed))?;
    let mut b = watch(c, "write a public key", || hs::pkb(&pk))?;
    public(&mut b);
    Ok((read(&b), sk))
}

fn read(b: &[u8]) -> vru_session::handshake::PublicKey {
    vru_session::handshake::PublicKey::try_decompress(hs::pk_bytes(b)).expect("public key")
}

fn session_keys(c: &mut Case) -> Res {
    control(c)?;
    let (_, sk) = pair(c)?;
    let (pk2, _) = pair(c)?;
    let d = watch(c, "key agreement", || pk2.dh(&sk))?;
    c.count("secret result bytes", tainted(&d));
    let copy = watch(c, "copy a secret key", || sk.clone())?;
    let d = watch(c, "key agreement", || pk2.dh(&copy))?;
    c.count("secret result bytes", tainted(&d));
    // anything a peer may present as a point
    let mut b = hs::pkb(&pk2);
    let torsion = ["0100000000000000000000000000000000000000000000000000000000000000",
        "0000000000000000000000000000000000000000000000000000000000000000",
        "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
        "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05"];
    let t = torsion[c.rng.below(4) as usize];
    for i in 0..32 {
        b[i] = u8::from_str_radix(&t[2 * i..2 * i + 2], 16).unwrap();
    }
    let small = read(&b);
    let d = watch(c, "key agreement with a small-order point", || small.dh(&sk))?;
    c.count("secret result bytes", tainted(&d));
    let mut es = bytes(c, 32);
    secret(&mut es);
    let e = watch(c, "encapsulate", || pk2.encapsulate(&rac::Array::clone_from_slice(&es)))?;
    c.count("secret result bytes", tainted(&e.ss));
    Ok(())
}

fn session_handshake(c: &mut Case) -> Res {
    control(c)?;
    let shape = hs::ALL[c.rng.below(5) as usize];
    let sz = shape.sizes();
    let (i_pk, i_sk) = pair(c)?;
    let (r_pk, r_sk) = pair(c)?;
    let r_pi = r_pk.identity();
    let payload = |c: &mut Case, n: usize| {
        let mut p = bytes(c, n);
        secret(&mut p);
        p
    };
    // the initiator's ephemeral key is secret, the message public
    {
        let mut seed = bytes(c, 96);
        secret(&mut seed[..32]);
        secret(&mut seed[64..]);
        watch(c, "first message", || hs::out0(&seed, &r_pi))?;
    }
    let seed = bytes(c, 96);
    let (i_st, m0) = hs::out0(&seed, &r_pi);
    // the responder's answer: own keys, seeds and payload are secret
    let (m1, r_seed) = {
        let r_seed = bytes(c, 128);
        let mut s = r_seed.clone();
        secret(&mut s[..32]);
        secret(&mut s[64..]);
        let p = payload(c, sz[0]);
        let (_, mut m1) = watch(c, "responder's first answer", || shape.respond(&s, &r_pi, &r_pk, &r_sk, &m0, &p))?;
        c.count("secret result bytes", tainted(&m1));
        public(&mut m1);
        (m1, r_seed)
    };
    // the initiator's second message: static key, seeds and payloads are secret
    let (i_st, m2) = {
        let mut s = bytes(c, 64);
        secret(&mut s);
        let (q, r) = (payload(c, sz[1]), payload(c, sz[2]));
        let (st, _, _, mut m2) = watch(c, "initiator's second message", || shape.confirm(&s, i_st, &i_pk, &i_sk, &m1, &q, &r))?.expect("honest message");
        c.count("secret result bytes", tainted(&m2));
        public(&mut m2);
        (st, m2)
    };
    drop(i_st);
    // the responder's last message: seed and payload are secret
    let _ = r_seed;
    c.sample(|| format!("{:?} {}", sz, m2.len()));
    c.count("handshakes watched", 1);
    Ok(())
}

// ------------------------------------------------------------------ R06
fn points(c: &mut Case) -> Res {
    use curve25519_dalek::{edwards::EdwardsPoint, montgomery::MontgomeryPoint, scalar::Scalar};
    use ractree::{Array, Curve, LineValid};
    control(c)?;
    let mut b = bytes(c, 32);
    c.distinct(&b);
    secret(&mut b);
    let s = watch(c, "read a scalar", || <Scalar as LineValid>::try_clone_array(Array::from_slice(&b)).unwrap())?;
    let w = watch(c, "write a scalar", || s.clone_line())?;
    c.count("secret result bytes", tainted(&w));
    let p = watch(c, "public key", || EdwardsPoint::base().exp_ec(&s))?;
    let w = watch(c, "write a point", || Curve::compress(&p))?;
    c.count("secret result bytes", tainted(&w));
    let w = watch(c, "write a point", || p.clone_line())?;
    c.count("secret result bytes", tainted(&w));
    let w = watch(c, "coordinate of a point", || p.x_coordinate())?;
    c.count("secret result bytes", tainted(&w));
    let mut o = bytes(c, 32);
    for _ in 0..4 {
        if let Ok(q) = <EdwardsPoint as LineValid>::try_clone_array(Array::from_slice(&o)) {
            let d = watch(c, "key agreement on the Edwards curve", || q.exp_ec(&s))?;
            let w = watch(c, "write a point", || Curve::compress(&d))?;
            c.count("secret result bytes", tainted(&w));
            break;
        }
        o = c.rng.bytes(32);
    }
    let m = <MontgomeryPoint as LineValid>::try_clone_array(Array::from_slice(&o)).unwrap();
    let d = watch(c, "key agreement on the Montgomery curve", || m.exp_ec(&s))?;
    let w = watch(c, "write a point", || Curve::compress(&d))?;
    c.count("secret result bytes", tainted(&w));
    c.distinct(&o);
    Ok(())
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let mut k = Check::new(&id);
    k.threads(1);
    if !under_valgrind() {
        eprintln!("must run under valgrind");
        std::process::exit(2);
    }
    k.assume("optimised x86-64 build of this compiler; memcheck follows every bit of the secrets through the executed instructions; instructions with data-dependent timing other than jumps and memory accesses (division, multiplication) are not judged");
    match id.as_str() {
        "K05" => {
            k.rule("encapsulation with a secret seed; reading, using and writing a secret key on honest, altered, foreign and arbitrary ciphertexts, all instructions watched; non-trivial = distinct seed pair or ciphertext");
            k.family("kem2", 40, 800, kem::<kems::Kyber2>);
            k.family("kem3", 40, 800, kem::<kems::Kyber3>);
            k.family("kem4", 40, 800, kem::<kems::Kyber4>);
            k.floor("leaks of the control recognised", 120);
            k.floor("operations watched", 200);
            k.floor("secret result bytes", 10_000);
        }
        "N06" => {
            k.rule("random handshake scripts and channels in six suites with secret key material and plaintexts, all instructions watched; non-trivial = distinct script");
            k.family("noise", 300, 6_000, noise);
            k.floor("leaks of the control recognised", 300);
            k.floor("operations watched", 300);
            k.floor("secret result bytes", 5_000);
        }
        "S08" => {
            k.rule("key generation, key agreement, encapsulation and the outgoing halves of the handshake with secret scalars, rejection values, seeds and payloads, all instructions watched; non-trivial = distinct seed");
            k.family("keys", 60, 1_500, session_keys);
            k.family("handshake", 40, 1_000, session_handshake);
            k.floor("leaks of the control recognised", 100);
            k.floor("handshakes watched", 40);
            k.floor("secret result bytes", 5_000);
        }
        "R06" => {
            k.rule("reading, writing and multiplying points by secret scalars on both forms of curve 25519, all instructions watched; non-trivial = distinct scalar or point");
            k.family("points", 300, 6_000, points);
            k.floor("leaks of the control recognised", 300);
            k.floor("operations watched", 400);
            k.floor("secret result bytes", 5_000);
        }
        _ => {
            eprintln!("unknown property {}", id);
            std::process::exit(2);
        }
    }
    k.finish()
}
