use crate::hs::*;
use crate::pair;
use models::session as m;
use mon::{ensure, fail, hexs, Case, Res};
use rac::{Concat, Line, LineValid};
use vru_session::handshake::{Identity, PublicKey, SecretKey};
use rac::generic_array::GenericArray;

fn same_behaviour(c: &mut Case, a: &PublicKey, b: &PublicKey, sk: &SecretKey, sk2: &SecretKey, what: &'static str) -> Res {
    ensure!(pkb(a) == pkb(b), "key/bytes", "{}: bytes differ", what);
    ensure!(a.elliptic() == b.elliptic() && a.lattice() == b.lattice(), "key/bytes", "{}: parts differ", what);
    ensure!(a.lattice_hash() == b.lattice_hash(), "key/hash", "{}: hash of the lattice part differs", what);
    ensure!(a.identity() == b.identity(), "key/identity", "{}: identity differs", what);
    let seed = c.rng.bytes(32);
    let s = GenericArray::from_slice(&seed);
    let (x, y) = (c.guard("encapsulate", || a.encapsulate(s))?, c.guard("encapsulate", || b.encapsulate(s))?);
    ensure!(x.ss == y.ss && x.ct.clone_line() == y.ct.clone_line(), "key/encapsulate", "{}: encapsulates differently", what);
    let (u, v) = (c.guard("decapsulate", || a.decapsulate(sk, &x.ct))?, c.guard("decapsulate", || b.decapsulate(sk2, &x.ct))?);
    ensure!(u == x.ss && v == x.ss, "key/decapsulate", "{}: decapsulates differently", what);
    let mut bad = x.ct.clone_line().to_vec();
    c.rng.mutate(&mut bad);
    let t = ct(&bad);
    ensure!(a.decapsulate(sk, &t) == b.decapsulate(sk2, &t), "key/decapsulate", "{}: rejects differently", what);
    ensure!(a.dh(sk) == b.dh(sk2) && a.dh(sk2) == b.dh(sk), "key/dh", "{}: key agreement differs", what);
    c.count("round trips", 1);
    Ok(())
}

pub fn s05(c: &mut Case) -> Res {
    let seed = if c.rng.chance(1, 3) { c.rng.hostile(96) } else { c.rng.bytes(96) };
    let p = c.guard("generate", || pair(&seed))?;
    let model = m::Key::generate(&seed);
    let b = c.guard("compress", || pkb(&p.pk))?;
    ensure!(b == model.public(), "key/generate", "seed {}: public key differs from the specified one", hexs(&seed));
    ensure!(p.pi.as_ref() == &model.identity()[..], "key/identity", "identity is not the hash of the public key");
    ensure!(b[..32] == p.pk.elliptic()[..] && b[32..] == p.pk.lattice()[..], "key/layout", "compressed key is not elliptic followed by lattice");
    c.distinct(&b);
    match c.index % 4 {
        0 => {
            let q = c.guard("decompress", || PublicKey::decompress(pk_bytes(&b)))?;
            same_behaviour(c, &p.pk, &q, &p.sk, &p.sk.clone(), "decompressed")?;
        }
        1 => {
            let e = c.guard("serialize", || bincode::serialize(&p.pk))?.map_err(|e| mon::Fail { sig: "key/serialize".into(), detail: e.to_string() })?;
            let q: PublicKey = match c.guard("deserialize", || bincode::deserialize(&e))? {
                Ok(q) => q,
                Err(e) => return fail("key/deserialize", e.to_string()),
            };
            same_behaviour(c, &p.pk, &q, &p.sk, &p.sk, "binary form")?;
            // every truncation is an error
            let cut = c.rng.below(e.len() as u64) as usize;
            let r = c.guard("deserialize-truncated", || bincode::deserialize::<PublicKey>(&e[..cut]).is_err())?;
            ensure!(r, "key/truncated", "accepted {} of {} bytes", cut, e.len());
        }
        2 => {
            let e = c.guard("serialize", || serde_json::to_string(&p.pk))?.map_err(|e| mon::Fail { sig: "key/serialize".into(), detail: e.to_string() })?;
            let q: PublicKey = match c.guard("deserialize", || serde_json::from_str(&e))? {
                Ok(q) => q,
                Err(e) => return fail("key/deserialize", e.to_string()),
            };
            same_behaviour(c, &p.pk, &q, &p.sk, &p.sk, "JSON form")?;
        }
        _ => {
            let (q, s) = (p.pk.clone(), p.sk.clone());
            same_behaviour(c, &p.pk, &q, &p.sk, &s, "clone")?;
            // with any peer: a point with a small-order component, or of small order
            let peer = {
                let t = curve25519_dalek::constants::EIGHT_TORSION[c.rng.below(8) as usize];
                let k = m::clamp(&c.rng.bytes(32));
                let q = if c.rng.chance(3, 4) { &curve25519_dalek::constants::ED25519_BASEPOINT_TABLE * &k + t } else { t };
                let mut b = b.clone();
                b[..32].copy_from_slice(q.compress().as_bytes());
                b
            };
            let q = c.guard("decompress", || PublicKey::decompress(pk_bytes(&peer)))?;
            let (x, y) = (c.guard("dh", || q.dh(&p.sk))?, c.guard("dh", || q.clone().dh(&s))?);
            ensure!(x == y, "key/dh", "the clone of a secret key agrees differently with the peer point {}", hexs(&peer[..32]));
            ensure!(x[..] == model.dh(&peer)[..], "key/dh", "key agreement with {} differs from the specified one", hexs(&peer[..32]));
            c.count("mixed-order peers", 1);
            // Diffie-Hellman commutes and equals the model's
            let seed2 = c.rng.bytes(96);
            let o = pair(&seed2);
            let mo = m::Key::generate(&seed2);
            let (x, y) = (p.pk.dh(&o.sk), o.pk.dh(&p.sk));
            ensure!(x == y, "key/dh", "key agreement does not commute");
            ensure!(x[..] == mo.dh(&model.elliptic)[..], "key/dh", "key agreement differs from the specified one");
        }
    }
    c.sample(|| format!("identity {} from seed {}", p.pi, hexs(&seed)));
    Ok(())
}

/// Arbitrary bytes as serialised or compressed keys: an error or a key with exactly those bytes.
pub fn s05_garbage(c: &mut Case) -> Res {
    let honest = {
        let mut b = c.rng.bytes(1120);
        if c.rng.chance(1, 2) {
            let s = c.rng.bytes(32);
            let k = m::clamp(&s);
            b[..32].copy_from_slice((&curve25519_dalek::constants::ED25519_BASEPOINT_TABLE * &k).compress().as_bytes());
        } else if c.rng.chance(1, 2) {
            let s = c.rng.hostile(32);
            b[..32].copy_from_slice(&s);
        }
        b
    };
    let mut bytes = honest.clone();
    if c.rng.chance(1, 4) {
        c.rng.mutate(&mut bytes[..40]);
    }
    let hash = models::noise::H::Sha3_256.hash(&[&bytes[32..]]);
    let dec = m::decodable(&bytes);
    c.count(if dec { "decodable" } else { "undecodable" }, 1);
    c.count("hostile encodings", 1);
    c.distinct(&bytes[..64]);
    let full = [&bytes[..], &hash[..]].concat();
    let canonical = |got: &PublicKey| -> Vec<u8> {
        let mut v = pkb(got);
        v.truncate(1120);
        v
    };
    let expect = {
        let mut v = bytes.clone();
        if dec {
            let p = curve25519_dalek::edwards::CompressedEdwardsY::from_slice(&bytes[..32]).decompress().unwrap();
            v[..32].copy_from_slice(p.compress().as_bytes());
        }
        v
    };
    let r: Result<PublicKey, String> = if c.index % 2 == 0 {
        c.guard("deserialize-hostile", || bincode::deserialize(&full).map_err(|e| e.to_string()))?
    } else {
        let j = serde_json::to_string(&full).unwrap();
        c.guard("deserialize-hostile", || serde_json::from_str(&j).map_err(|e| e.to_string()))?
    };
    match r {
        Ok(pk) => {
            ensure!(dec, "key/invalid-accepted", "bytes that are no curve point accepted: {}", hexs(&bytes[..32]));
            ensure!(canonical(&pk) == expect, "key/bytes", "a deserialised key is not the one serialised");
            ensure!(pk.lattice_hash()[..] == hash[..], "key/hash", "hash changed");
        }
        Err(_) => ensure!(!dec, "key/deserialize", "a valid key was rejected: {}", hexs(&bytes[..32])),
    }
    // a hash that is not that of the key
    let mut wrong = full.clone();
    c.rng.mutate(&mut wrong[1120..]);
    if wrong[1120..] != full[1120..] {
        let r = if c.index % 2 == 0 {
            c.guard("deserialize-wrong-hash", || bincode::deserialize::<PublicKey>(&wrong).is_err())?
        } else {
            let j = serde_json::to_string(&wrong).unwrap();
            c.guard("deserialize-wrong-hash", || serde_json::from_str::<PublicKey>(&j).is_err())?
        };
        ensure!(r, "key/wrong-hash-accepted", "a serialised key was accepted with the hash {}", hexs(&wrong[1120..]));
        c.count("contradictory encodings refused", 1);
    }
    // wrong lengths and types
    let j = match c.rng.below(5) {
        0 => serde_json::to_string(&full[..c.rng.below(full.len() as u64) as usize]).unwrap(),
        1 => "\"text\"".into(),
        2 => "{}".into(),
        3 => "[1,2,300]".into(),
        _ => "[]".into(),
    };
    let r = c.guard("deserialize-malformed", || serde_json::from_str::<PublicKey>(&j).is_err())?;
    ensure!(r, "key/malformed-accepted", "accepted {}", hexs(j.as_bytes()));
    if dec {
        let pk = c.guard("decompress", || PublicKey::decompress(pk_bytes(&bytes)))?;
        ensure!(pkb(&pk) == expect, "key/bytes", "decompress/compress");
        ensure!(pk.lattice_hash()[..] == hash[..], "key/hash", "hash of the lattice part is not the specified one");
        let d = c.guard("debug", || format!("{:?}", pk))?;
        ensure!(!d.is_empty(), "key/debug", "empty");
    }
    let _ = Concat::<rac::Array<rac::generic_array::typenum::U0>, rac::Array<rac::generic_array::typenum::U0>>::clone_array;
    let _ = <rac::Array<rac::generic_array::typenum::U0> as Line>::clone_array;
    Ok(())
}

// ---------------------------------------------------------------- S06

fn text_form(hash: &[u8]) -> String {
    let mut v = vec![0u8];
    v.extend_from_slice(hash);
    base64::encode(v)
}

pub fn s06(c: &mut Case) -> Res {
    // identities from keys (some cases) and from arbitrary hashes
    let hash = if c.index % 8 == 0 {
        let seed = c.rng.bytes(96);
        let p = pair(&seed);
        ensure!(p.pi.as_ref() == &m::identity(&pkb(&p.pk))[..], "identity/hash", "not the hash of the public key");
        c.count("keys identified", 1);
        p.pi.as_ref().to_vec()
    } else {
        c.rng.hostile(32)
    };
    let t = text_form(&hash);
    let id: Identity = match c.guard("parse", || t.parse())? {
        Ok(v) => v,
        Err(e) => {
            let e: base64::DecodeError = e;
            return fail("identity/rejected", format!("{} {:?}", t, e));
        }
    };
    ensure!(id.as_ref() == &hash[..], "identity/text", "{} parsed to {}", t, hexs(id.as_ref()));
    ensure!(id.to_string() == t, "identity/text", "{} printed as {}", t, id);
    let b = bincode::serialize(&id).unwrap();
    ensure!(b == hash, "identity/binary", "binary form is {}", hexs(&b));
    let id2: Identity = bincode::deserialize(&b).unwrap();
    ensure!(id2 == id, "identity/binary", "binary round trip");
    let j = serde_json::to_string(&id).unwrap();
    let id3: Identity = serde_json::from_str(&j).unwrap();
    ensure!(id3 == id, "identity/json", "JSON round trip");
    let cut = c.rng.below(32) as usize;
    ensure!(bincode::deserialize::<Identity>(&b[..cut]).is_err(), "identity/truncated", "{} bytes accepted", cut);
    // equality is equality of all 32 bytes, and equal identities hash equally
    let mut h2 = hash.clone();
    let bit = c.rng.below(256) as usize;
    h2[bit / 8] ^= 1 << (bit % 8);
    let o: Identity = text_form(&h2).parse().unwrap();
    ensure!(o != id && o.to_string() != id.to_string(), "identity/equality", "identities differing in bit {} compare equal", bit);
    for _ in 0..4 {
        let mut h2 = hash.clone();
        let how = c.rng.mutate(&mut h2);
        let o: Identity = text_form(&h2).parse().unwrap();
        ensure!(o != id && o.to_string() != id.to_string(), "identity/equality", "{} and {} compare equal ({})", id, o, how);
        c.count("different identities compared", 1);
    }
    let mut set = std::collections::HashSet::new();
    set.insert(id.clone());
    ensure!(set.contains(&id2) && !set.contains(&o), "identity/equality", "set membership");
    c.count("texts parsed", 1);
    c.distinct(&hash);
    c.sample(|| t.clone());
    Ok(())
}

/// Arbitrary texts: parsed exactly when some identity prints so, never a crash.
pub fn s06_text(c: &mut Case) -> Res {
    let t: String = match c.rng.below(6) {
        0 => {
            let n = c.rng.below(70) as usize;
            base64::encode(c.rng.bytes(n))
        }
        1 => {
            let n = c.rng.range(31, 35) as usize;
            base64::encode(c.rng.hostile(n))
        }
        2 => {
            let n = c.rng.below(60) as usize;
            (0..n).map(|_| char::from_u32(c.rng.below(0x250) as u32).unwrap_or('x')).collect()
        }
        _ => {
            let h = c.rng.bytes(32);
            let mut t: Vec<u8> = text_form(&h).into_bytes();
            match c.rng.below(10) {
                // another first byte
                9 => {
                    let mut v = vec![1u8 << c.rng.below(8)];
                    v.extend_from_slice(&h);
                    t = base64::encode(v).into_bytes();
                }
                0 => {
                    let k = c.rng.below(t.len() as u64) as usize;
                    t.truncate(k);
                }
                // surroundings a lenient reader would strip
                5 => {
                    let k = c.rng.below(t.len() as u64 + 1) as usize;
                    let k = *c.rng.pick(&[0, t.len(), k]);
                    let w: &[u8] = *c.rng.pick(&[b" ".as_slice(), b"\n", b"\r\n", b"\t", b"\0", b"=", b"==", b"\"", b"0x", b"\x0b"]);
                    t.splice(k..k, w.iter().copied());
                }
                6 => {
                    // the other alphabet
                    for x in t.iter_mut() {
                        match *x {
                            b'+' => *x = b'-',
                            b'/' => *x = b'_',
                            _ => (),
                        }
                    }
                }
                7 => {
                    // the same bytes in hexadecimal
                    let with = c.rng.chance(1, 2);
                    t = mon::hex(&h).into_bytes();
                    if with {
                        t.splice(0..0, *b"00");
                    }
                }
                8 => {
                    let mut v = vec![*c.rng.pick(&[0u8, 1, 255])];
                    v.extend_from_slice(&h);
                    let cfg = *c.rng.pick(&[base64::URL_SAFE, base64::STANDARD_NO_PAD, base64::URL_SAFE_NO_PAD, base64::CRYPT, base64::IMAP_MUTF7]);
                    t = base64::encode_config(v, cfg).into_bytes();
                }
                1 => {
                    let k = c.rng.below(t.len() as u64) as usize;
                    t[k] = *c.rng.pick(b"=-_ \n+/!A");
                }
                2 => t.extend_from_slice(b"AAAA"),
                3 => t.insert(0, b' '),
                _ => {
                    let k = c.rng.below(t.len() as u64) as usize;
                    t.remove(k);
                }
            }
            String::from_utf8(t).unwrap()
        }
    };
    // the text form is the base64 of a zero byte and the hash
    let want = base64::decode(&t).ok().filter(|b| b.len() == 33 && b[0] == 0);
    let got = c.guard("parse-text", || t.parse::<Identity>())?;
    c.distinct(t.as_bytes());
    match (want, got) {
        (Some(b), Ok(id)) => {
            c.count("texts parsed", 1);
            ensure!(id.as_ref() == &b[1..], "identity/text", "{:?} parsed to {}", t, hexs(id.as_ref()));
        }
        (Some(_), Err(e)) => return fail("identity/rejected", format!("{:?} rejected: {:?}", t, e)),
        (None, Ok(id)) => return fail("identity/accepted", format!("{:?} accepted as {}", t, id)),
        (None, Err(_)) => c.count("texts rejected", 1),
    }
    Ok(())
}
