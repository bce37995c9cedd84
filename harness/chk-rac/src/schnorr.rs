use crate::curves::{arr, clamp, secp_point, secp_scalar, special_ed};
use curve25519_dalek::{edwards::EdwardsPoint, scalar::Scalar as S25519};
use models::curves as m;
use mon::{ensure, fail, hexs, Case, Res};
use rac::{Curve, LineValid, Schnorr, Signature};
use secp256k1::{PublicKey, SecretKey};
use sha3::{Digest, Sha3_256};

type SigE = Schnorr<EdwardsPoint, Sha3_256>;
type SigS = Schnorr<PublicKey, Sha3_256>;

fn challenge(r: &[u8], msg: &[u8]) -> [u8; 32] {
    let mut h = Sha3_256::new();
    h.update(r);
    h.update(msg);
    h.finalize().into()
}

fn message(c: &mut Case) -> Vec<u8> {
    let n = match c.rng.below(4) {
        0 => *c.rng.pick(&[0usize, 1, 103, 104, 105, 135, 136, 137, 239, 240, 241]),
        _ => c.rng.size(400),
    };
    c.rng.hostile(n)
}

fn ed_y(p: &m::Ed) -> [u8; 32] {
    let mut b = p.compress();
    b[31] &= 0x7f;
    b
}

/// r || s as the scheme prescribes
fn model_sign_ed(d: &m::U, k: &m::U, msg: &[u8]) -> ([u8; 32], m::U) {
    let r = ed_y(&m::Ed::base().mul(k));
    let h = m::from_le(&clamp(&challenge(&r, msg)));
    let f = &m::S25519;
    (r, f.sub(k, &f.mul(d, &h)))
}

fn model_verify_ed(sig: &[u8], pk: &m::Ed, msg: &[u8]) -> bool {
    let h = m::from_le(&clamp(&challenge(&sig[..32], msg)));
    let s = m::from_le(&clamp(&sig[32..]));
    ed_y(&pk.mul(&h).add(&m::Ed::base().mul(&s)))[..] == sig[..32]
}

fn scalar_ed(c: &mut Case) -> (S25519, m::U) {
    let b = c.rng.hostile(32);
    (S25519::try_clone_array(&arr(&b)).unwrap(), m::from_le(&clamp(&b)))
}

/// Signatures made by the library, kept in memory.
pub fn made(c: &mut Case) -> Res {
    let (d, di) = scalar_ed(c);
    let (k, ki) = scalar_ed(c);
    let msg = message(c);
    let pk = EdwardsPoint::base().exp_ec(&d);
    let Ok(s) = c.guard("sign", || SigE::sign(&d, &msg, &k))? else {
        return fail("schnorr/sign-failed", hexs(&msg));
    };
    let v = c.guard("verify", || s.verify(&pk, &msg))?;
    ensure!(v.is_ok(), "schnorr/genuine-rejected", "key {} seed {} message {}", hexs(d.as_bytes()), hexs(k.as_bytes()), hexs(&msg));
    let v = c.guard("verify", || s.clone().verify(&pk, &msg))?;
    ensure!(v.is_ok(), "schnorr/genuine-rejected", "cloned signature");
    c.count("signatures verified", 2);
    let (r, si) = model_sign_ed(&di, &ki, &msg);
    let want = [r, m::to_le(&si)].concat();
    ensure!(s.clone_line()[..] == want[..], "schnorr/formula", "{} want {}", hexs(&s.clone_line()), hexs(&want));
    c.count("formula compared", 1);
    // determinism
    let t = SigE::sign(&d, &msg, &k);
    ensure!(matches!(&t, Ok(t) if t.clone_line() == s.clone_line()), "schnorr/deterministic", "");
    c.distinct(&[&want[..], &msg].concat());
    c.sample(|| format!("key {} message of {} bytes", hexs(d.as_bytes()), msg.len()));
    Ok(())
}

/// A genuine signature whose scalar survives being read (clamped form of the same residue).
fn wire_sig_ed(c: &mut Case) -> (S25519, m::U, Vec<u8>, Vec<u8>) {
    let msg = message(c);
    let (d, di) = scalar_ed(c);
    loop {
        let (_, ki) = scalar_ed(c);
        let (r, si) = model_sign_ed(&di, &ki, &msg);
        let mut x = si;
        for _ in 0..8 {
            let b = m::to_le(&x);
            if clamp(&b) == b {
                return (d, di, msg, [r, b].concat());
            }
            x = m::add(&x, &m::L25519).0;
        }
    }
}

pub fn wire_ed(c: &mut Case) -> Res {
    let (d, _, msg, sig) = wire_sig_ed(c);
    let Ok(s) = c.guard("read", || SigE::try_clone_array(&arr(&sig)))? else {
        return fail("schnorr/read", hexs(&sig));
    };
    ensure!(s.clone_line()[..] == sig[..], "schnorr/round-trip", "{}", hexs(&sig));
    let pk = EdwardsPoint::base().exp_ec(&d);
    let v = c.guard("verify", || s.verify(&pk, &msg))?;
    ensure!(v.is_ok(), "schnorr/genuine-rejected", "signature read from {}", hexs(&sig));
    c.count("signatures verified", 1);
    c.distinct(&sig);
    Ok(())
}

fn model_sign_secp(d: &m::U, k: &m::U, msg: &[u8]) -> Option<Vec<u8>> {
    let (x, _) = m::Sp::base().mul(k).xy();
    let r = m::to_be(&x);
    let h = m::from_be(&challenge(&r, msg));
    if h == m::ZERO || !m::lt(&h, &m::SECP_N) {
        return None;
    }
    let f = &m::SSECP;
    let s = f.sub(k, &f.mul(d, &h));
    (s != m::ZERO).then(|| [r, m::to_be(&s)].concat())
}

fn model_verify_secp(sig: &[u8], pk: &m::Sp, msg: &[u8]) -> Option<bool> {
    let h = m::from_be(&challenge(&sig[..32], msg));
    if h == m::ZERO || !m::lt(&h, &m::SECP_N) {
        return Some(false);
    }
    let q = pk.mul(&h).add(&m::Sp::base().mul(&m::from_be(&sig[32..])));
    if q.is_infinity() {
        return None;
    }
    Some(m::to_be(&q.xy().0)[..] == sig[..32])
}

fn wire_sig_secp(c: &mut Case) -> Res<(SecretKey, Vec<u8>, Vec<u8>)> {
    let msg = message(c);
    loop {
        let (d, di) = secp_scalar(c)?;
        let (_, ki) = secp_scalar(c)?;
        if let Some(sig) = model_sign_secp(&di, &ki, &msg) {
            return Ok((d, msg, sig));
        }
    }
}

pub fn wire_secp(c: &mut Case) -> Res {
    let (d, msg, sig) = wire_sig_secp(c)?;
    let Ok(s) = c.guard("read", || SigS::try_clone_array(&arr(&sig)))? else {
        return fail("schnorr/read", hexs(&sig));
    };
    ensure!(s.clone_line()[..] == sig[..], "schnorr/round-trip", "{}", hexs(&sig));
    let pk = PublicKey::base().exp_ec(&d);
    let v = c.guard("verify", || s.verify(&pk, &msg))?;
    ensure!(v.is_ok(), "schnorr/genuine-rejected", "secp256k1 signature {}", hexs(&sig));
    c.count("signatures verified", 1);
    c.distinct(&sig);
    Ok(())
}

/// sign, write, read, verify
pub fn reread(c: &mut Case) -> Res {
    let (d, _) = scalar_ed(c);
    let (k, _) = scalar_ed(c);
    let msg = message(c);
    let pk = EdwardsPoint::base().exp_ec(&d);
    let Ok(s) = SigE::sign(&d, &msg, &k) else {
        return fail("schnorr/sign-failed", "");
    };
    let Ok(t) = c.guard("read", || SigE::try_clone_array(&s.clone_line()))? else {
        return fail("schnorr/read", hexs(&s.clone_line()));
    };
    let v = c.guard("verify", || t.verify(&pk, &msg))?;
    ensure!(v.is_ok(), "schnorr/reread-ed25519", "signature {} is rejected after being read back", hexs(&s.clone_line()));
    c.count("signatures verified", 1);
    Ok(())
}

/// Messages of many megabytes, made and altered.
pub fn huge(c: &mut Case) -> Res {
    let l = [65_535usize, 65_536, 65_537, 1 << 20, (1 << 20) + 1, (1 << 24) + 3][c.index as usize % 6];
    let msg = c.rng.bytes(l);
    let (d, di) = scalar_ed(c);
    let (k, ki) = scalar_ed(c);
    let pk = EdwardsPoint::base().exp_ec(&d);
    let Ok(s) = c.guard("sign", || SigE::sign(&d, &msg, &k))? else {
        return fail("schnorr/sign-failed", format!("{} bytes", l));
    };
    let (r, si) = model_sign_ed(&di, &ki, &msg);
    ensure!(s.clone_line()[..] == [r, m::to_le(&si)].concat()[..], "schnorr/formula", "message of {} bytes", l);
    let v = c.guard("verify", || s.verify(&pk, &msg))?;
    ensure!(v.is_ok(), "schnorr/genuine-rejected", "message of {} bytes", l);
    c.count("signatures verified", 1);
    c.count("formula compared", 1);
    // the last byte, the first one, any other; longer, shorter
    for n in 0..5 {
        let mut m2 = msg.clone();
        match n {
            0 => *m2.last_mut().unwrap() ^= 1,
            1 => m2[0] ^= 0x80,
            2 => {
                let at = c.rng.below(l as u64) as usize;
                m2[at] ^= 4;
            }
            3 => m2.push(0),
            _ => {
                m2.pop();
            }
        }
        let v = c.guard("verify", || s.verify(&pk, &m2))?;
        ensure!(v.is_err(), "schnorr/other-message", "signature of a message of {} bytes accepted for an altered one ({})", l, n);
        c.count("alterations rejected", 1);
    }
    let sig = loop {
        if let Some(x) = model_sign_secp(&m::from_be(&[7; 32]), &m::from_be(&c.rng.bytes(32)), &msg) {
            break x;
        }
    };
    let key = SecretKey::try_clone_array(&arr(&[7; 32])).map_err(|_| mon::Fail { sig: "schnorr/read".into(), detail: String::new() })?;
    let pk = PublicKey::base().exp_ec(&key);
    let s = SigS::try_clone_array(&arr(&sig)).map_err(|_| mon::Fail { sig: "schnorr/read".into(), detail: hexs(&sig) })?;
    let v = c.guard("verify", || s.verify(&pk, &msg))?;
    ensure!(v.is_ok(), "schnorr/genuine-rejected", "secp256k1, message of {} bytes", l);
    let mut m2 = msg.clone();
    *m2.last_mut().unwrap() ^= 1;
    let v = c.guard("verify", || s.verify(&pk, &m2))?;
    ensure!(v.is_err(), "schnorr/other-message", "secp256k1, message of {} bytes", l);
    c.count("alterations rejected", 1);
    c.distinct(&sig);
    c.sample(|| format!("message of {} bytes", l));
    Ok(())
}

// ------------------------------------------------------------------ R05
fn alter_message(c: &mut Case, msg: &[u8]) -> Vec<u8> {
    let mut v = msg.to_vec();
    match c.rng.below(4) {
        0 => v.push(c.rng.u8()),
        1 if !v.is_empty() => {
            v.pop();
        }
        2 if !v.is_empty() => {
            v.remove(0);
        }
        _ if !v.is_empty() => {
            c.rng.mutate(&mut v);
        }
        _ => v.push(0),
    }
    v
}

pub fn altered_ed(c: &mut Case) -> Res {
    // an in-memory signature and one that came over the wire
    let (d, di, msg, sig) = wire_sig_ed(c);
    let pk = EdwardsPoint::base().exp_ec(&d);
    let (k, _) = scalar_ed(c);
    let Ok(mem) = SigE::sign(&d, &msg, &k) else {
        return fail("schnorr/sign-failed", "");
    };
    let wire = SigE::try_clone_array(&arr(&sig)).map_err(|()| mon::Fail { sig: "schnorr/read".into(), detail: hexs(&sig) })?;
    let m2 = alter_message(c, &msg);
    let (d2, _) = scalar_ed(c);
    let pk2 = EdwardsPoint::base().exp_ec(&d2);
    for (name, s) in [("made", &mem), ("read", &wire)] {
        let v = c.guard("verify", || s.verify(&pk, &m2))?;
        ensure!(v.is_err(), "schnorr/other-message", "{} signature of {} accepted for {}", name, hexs(&msg), hexs(&m2));
        c.count("alterations rejected", 1);
        if pk2 != pk {
            let v = c.guard("verify", || s.verify(&pk2, &msg))?;
            ensure!(v.is_err(), "schnorr/other-key", "{} signature accepted under another key {}", name, hexs(&pk2.clone_line()));
            c.count("alterations rejected", 1);
        }
    }
    for _ in 0..3 {
        let mut b = sig.clone();
        if c.rng.chance(1, 2) {
            let at = c.rng.below(2) as usize * 32;
            let bit = c.rng.below(256) as usize;
            b[at + bit / 8] ^= 1 << (bit % 8);
        } else {
            c.rng.mutate(&mut b);
        }
        if b[..32] == sig[..32] && m::S25519.red(&m::from_le(&clamp(&b[32..]))) == m::S25519.red(&m::from_le(&sig[32..])) {
            continue; // only bits that clamping ignores, or the same residue
        }
        if model_verify_ed(&b, &m::Ed::base().mul(&di), &msg) {
            continue; // another genuine signature of the same owner (opposite commitment)
        }
        c.distinct(&b);
        if let Ok(s) = c.guard("read", || SigE::try_clone_array(&arr(&b)))? {
            let v = c.guard("verify", || s.verify(&pk, &msg))?;
            ensure!(v.is_err(), "schnorr/altered-signature", "{} altered to {}", hexs(&sig), hexs(&b));
        }
        c.count("alterations rejected", 1);
    }
    c.sample(|| format!("message of {} bytes altered to {} bytes", msg.len(), m2.len()));
    Ok(())
}

pub fn altered_secp(c: &mut Case) -> Res {
    let (d, msg, sig) = wire_sig_secp(c)?;
    let pk = PublicKey::base().exp_ec(&d);
    let s = SigS::try_clone_array(&arr(&sig)).map_err(|()| mon::Fail { sig: "schnorr/read".into(), detail: hexs(&sig) })?;
    let m2 = alter_message(c, &msg);
    let v = c.guard("verify", || s.verify(&pk, &m2))?;
    ensure!(v.is_err(), "schnorr/other-message", "signature of {} accepted for {}", hexs(&msg), hexs(&m2));
    let (pk2, _) = secp_point(c);
    if pk2 != pk {
        let v = c.guard("verify", || s.verify(&pk2, &msg))?;
        ensure!(v.is_err(), "schnorr/other-key", "signature accepted under another key {}", hexs(&pk2.clone_line()));
    }
    // the opposite point
    let mut z = pk.compress();
    z[0] ^= 1;
    let neg = PublicKey::from_slice(&z).unwrap();
    let v = c.guard("verify", || s.verify(&neg, &msg))?;
    ensure!(v.is_err(), "schnorr/other-key", "signature accepted under the opposite key");
    c.count("alterations rejected", 3);
    for _ in 0..3 {
        let mut b = sig.clone();
        c.rng.mutate(&mut b);
        if model_verify_secp(&b, &m::Sp::base().mul(&m::from_be(&d.clone_line())), &msg) != Some(false) {
            continue; // another genuine signature of the same owner (opposite commitment)
        }
        c.distinct(&b);
        if let Ok(s) = c.guard("read", || SigS::try_clone_array(&arr(&b)))? {
            let v = c.guard("verify", || s.verify(&pk, &msg))?;
            ensure!(v.is_err(), "schnorr/altered-signature", "{} altered to {}", hexs(&sig), hexs(&b));
        }
        c.count("alterations rejected", 1);
    }
    Ok(())
}

/// Arbitrary signature bytes and keys: same verdict as the model, no panic.
pub fn hostile(c: &mut Case) -> Res {
    let msg = message(c);
    let mut sig = c.rng.hostile(64);
    if c.index % 2 == 0 {
        let pkb: Vec<u8> = if c.rng.chance(1, 3) { c.rng.pick(&special_ed()).to_vec() } else { c.rng.hostile(32) };
        let Some(pm) = m::Ed::decompress(&pkb) else {
            return Ok(());
        };
        let Ok(pk) = c.guard("point", || EdwardsPoint::try_clone_array(&arr(&pkb)))? else {
            return Ok(());
        };
        if c.rng.chance(1, 3) {
            // aims at small-order keys, under which this verifies by definition
            let s = m::from_le(&clamp(&sig[32..]));
            let r = ed_y(&m::Ed::base().mul(&s));
            sig[..32].copy_from_slice(&r);
        }
        let Ok(s) = c.guard("read", || SigE::try_clone_array(&arr(&sig)))? else {
            return fail("schnorr/read", hexs(&sig));
        };
        let got = c.guard("verify", || s.verify(&pk, &msg))?.is_ok();
        let want = model_verify_ed(&sig, &pm, &msg);
        ensure!(got == want, "schnorr/verdict", "signature {} key {}: {} want {}", hexs(&sig), hexs(&pkb), got, want);
    } else {
        let (pk, pm) = secp_point(c);
        let Ok(s) = c.guard("read", || SigS::try_clone_array(&arr(&sig)))? else {
            let i = m::from_be(&sig[32..]);
            ensure!(i == m::ZERO || !m::lt(&i, &m::SECP_N), "schnorr/read", "{}", hexs(&sig));
            return Ok(());
        };
        if let Some(want) = model_verify_secp(&sig, &pm, &msg) {
            let got = c.guard("verify", || s.verify(&pk, &msg))?.is_ok();
            ensure!(got == want, "schnorr/verdict", "signature {}: {} want {}", hexs(&sig), got, want);
        }
    }
    c.count("hostile verdicts", 1);
    c.distinct(&[&sig[..], &msg].concat());
    Ok(())
}

/// The key's owner picks s so that the recomputed commitment is the point at infinity.
pub fn infinity(c: &mut Case) -> Res {
    let (d, di) = secp_scalar(c)?;
    let pk = PublicKey::base().exp_ec(&d);
    let msg = message(c);
    let r = c.rng.bytes(32);
    let h = m::from_be(&challenge(&r, &msg));
    if h == m::ZERO || !m::lt(&h, &m::SECP_N) {
        return Ok(());
    }
    let s = m::SSECP.neg(&m::SSECP.mul(&di, &h));
    let sig = [&r[..], &m::to_be(&s)].concat();
    let Ok(sg) = c.guard("read", || SigS::try_clone_array(&arr(&sig)))? else {
        return Ok(());
    };
    let v = c.guard("verify-at-infinity", || sg.verify(&pk, &msg))?;
    ensure!(v.is_err(), "schnorr/infinity-accepted", "{}", hexs(&sig));
    Ok(())
}

/// Key substitution: commitment bytes chosen first, then a key under which the recomputed point
/// is a chosen Q. The verdict must be whether the bytes are exactly Q's coordinate.
pub fn forged(c: &mut Case) -> Res {
    let msg = message(c);
    let q = m::from_le(&c.rng.bytes(32));
    let s = clamp(&c.rng.hostile(32));
    if c.index % 2 == 0 {
        let f = &m::S25519;
        let q = f.red(&q);
        let point = m::Ed::base().mul(&q);
        let mut r = ed_y(&point).to_vec();
        let how = if c.index % 8 == 0 { "exact".into() } else { c.rng.mutate(&mut r) };
        let exact = r[..] == ed_y(&point)[..];
        let h = f.red(&m::from_le(&clamp(&challenge(&r, &msg))));
        let key = if c.index % 6 == 2 {
            // a small-order key contributes nothing, the commitment is that of s alone
            let pkb = *c.rng.pick(&special_ed());
            let Some(p) = m::Ed::decompress(&pkb) else {
                return Ok(());
            };
            let mut r2 = ed_y(&m::Ed::base().mul(&m::from_le(&s))).to_vec();
            let how = c.rng.mutate(&mut r2);
            let sig = [&r2[..], &s].concat();
            let Ok(pk) = EdwardsPoint::try_clone_array(&arr(&pkb)) else {
                return Ok(());
            };
            let want = model_verify_ed(&sig, &p, &msg);
            let Ok(sg) = c.guard("read", || SigE::try_clone_array(&arr(&sig)))? else {
                return fail("schnorr/read", hexs(&sig));
            };
            let got = c.guard("verify", || sg.verify(&pk, &msg))?.is_ok();
            ensure!(got == want, "schnorr/forged", "commitment altered ({}) under {}: {} want {}", how, hexs(&pkb), got, want);
            c.count("forgeries judged", 1);
            return Ok(());
        } else {
            f.mul(&f.sub(&q, &f.red(&m::from_le(&s))), &f.inv(&h))
        };
        let pk = EdwardsPoint::try_clone_array(&arr(&m::Ed::base().mul(&key).compress()));
        let Ok(pk) = pk else {
            return fail("point/rejected", "public key");
        };
        let sig = [&r[..], &s].concat();
        let Ok(sg) = c.guard("read", || SigE::try_clone_array(&arr(&sig)))? else {
            return fail("schnorr/read", hexs(&sig));
        };
        let got = c.guard("verify", || sg.verify(&pk, &msg))?.is_ok();
        ensure!(got == exact, "schnorr/forged", "commitment altered ({}), signature {}: {} want {}", how, hexs(&sig), got, exact);
        c.distinct(&sig);
    } else {
        let f = &m::SSECP;
        let (q, s) = (f.red(&q), f.red(&m::from_be(&s)));
        let point = m::Sp::base().mul(&q);
        if point.is_infinity() || s == m::ZERO {
            return Ok(());
        }
        let x = m::to_be(&point.xy().0);
        let mut r = x.to_vec();
        let how = if c.index % 8 == 1 { "exact".into() } else { c.rng.mutate(&mut r) };
        let exact = r[..] == x[..];
        let h = m::from_be(&challenge(&r, &msg));
        if h == m::ZERO || !m::lt(&h, &m::SECP_N) {
            return Ok(());
        }
        let key = m::Sp::base().mul(&f.mul(&f.sub(&q, &s), &f.inv(&h)));
        if key.is_infinity() {
            return Ok(());
        }
        let Ok(pk) = PublicKey::from_slice(&key.compress()) else {
            return fail("point/rejected", "public key");
        };
        let sig = [&r[..], &m::to_be(&s)].concat();
        let Ok(sg) = c.guard("read", || SigS::try_clone_array(&arr(&sig)))? else {
            return fail("schnorr/read", hexs(&sig));
        };
        let got = c.guard("verify", || sg.verify(&pk, &msg))?.is_ok();
        ensure!(got == exact, "schnorr/forged", "secp256k1: commitment altered ({}), signature {}: {} want {}", how, hexs(&sig), got, exact);
        c.distinct(&sig);
    }
    c.count("forgeries judged", 1);
    Ok(())
}
