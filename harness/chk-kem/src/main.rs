mod kems;
use kems::*;
use models::kyber as m;
use mon::{ensure, fail, hexs, Case, Check, Res, Rng};

fn arr<const N: usize>(v: Vec<u8>) -> [u8; N] {
    v.try_into().unwrap()
}
fn seed64(r: &mut Rng) -> [u8; 64] {
    arr(r.hostile(64))
}
fn seed32(r: &mut Rng) -> [u8; 32] {
    arr(r.hostile(32))
}

fn parse_pk<T: K>(c: &mut Case, b: &[u8]) -> Res<T::Pk> {
    match c.guard("parse-public-key", || T::pkp(b))? {
        Some(v) => Ok(v),
        None => fail("parse/public-key", format!("{} rejected {}", T::NAME, hexs(b))),
    }
}
fn parse_sk<T: K>(c: &mut Case, b: &[u8]) -> Res<T::Sk> {
    match c.guard("parse-secret-key", || T::skp(b))? {
        Some(v) => Ok(v),
        None => fail("parse/secret-key", format!("{} rejected {}", T::NAME, hexs(b))),
    }
}
fn parse_ct<T: K>(c: &mut Case, b: &[u8]) -> Res<T::Ct> {
    match c.guard("parse-ciphertext", || T::ctp(b))? {
        Some(v) => Ok(v),
        None => fail("parse/ciphertext", format!("{} rejected {}", T::NAME, hexs(b))),
    }
}

// ---------------------------------------------------------------- K01

fn k01<T: K>(c: &mut Case) -> Res {
    let s = seed64(&mut c.rng);
    let es = seed32(&mut c.rng);
    let (pk, sk) = c.guard("keygen", || T::keygen(&s))?;
    let pkb = c.guard("encode", || T::pkb(&pk))?;
    let skb = c.guard("encode", || T::skb(&sk))?;
    let h = if c.rng.chance(3, 4) {
        m::h256(&[&pkb])
    } else {
        seed32(&mut c.rng)
    };
    // each object either as produced or after a trip through its encoding
    let combo = c.index % 16;
    let pk_e = if combo & 1 != 0 { parse_pk::<T>(c, &pkb)? } else { T::keygen(&s).0 };
    let sk_d = if combo & 2 != 0 { parse_sk::<T>(c, &skb)? } else { sk };
    let pk_d = if combo & 4 != 0 { parse_pk::<T>(c, &pkb)? } else { pk };
    let (ct, ss0) = c.guard("encapsulate", || T::encaps(&es, &pk_e, &h))?;
    let ctb = c.guard("encode", || T::ctb(&ct))?;
    let ct = if combo & 8 != 0 { parse_ct::<T>(c, &ctb)? } else { ct };
    let ss1 = c.guard("decapsulate", || T::decaps(&sk_d, &pk_d, &h, &ct))?;
    ensure!(
        ss0 == ss1,
        "disagree",
        "{} combo(parsed: pk_enc={} sk={} pk_dec={} ct={}) seed={} enc_seed={} encapsulator={} decapsulator={}",
        T::NAME,
        combo & 1 != 0,
        combo & 2 != 0,
        combo & 4 != 0,
        combo & 8 != 0,
        hexs(&s),
        hexs(&es),
        hexs(&ss0),
        hexs(&ss1)
    );
    // the same decapsulation again gives the same answer
    let ss2 = T::decaps(&sk_d, &pk_d, &h, &ct);
    ensure!(ss1 == ss2, "unstable", "decapsulation is not deterministic");
    // several encapsulations under one key
    for _ in 0..2 {
        let es = seed32(&mut c.rng);
        let (ct, a) = c.guard("encapsulate", || T::encaps(&es, &pk_e, &h))?;
        let b = c.guard("decapsulate", || T::decaps(&sk_d, &pk_d, &h, &ct))?;
        ensure!(a == b, "disagree", "{} seed={} enc_seed={}", T::NAME, hexs(&s), hexs(&es));
        c.count("agreements", 1);
    }
    c.count("agreements", 1);
    c.count(
        [
            "combo:fresh", "combo:pk", "combo:sk", "combo:pk+sk", "combo:pkd", "combo:pk+pkd",
            "combo:sk+pkd", "combo:pk+sk+pkd", "combo:ct", "combo:pk+ct", "combo:sk+ct",
            "combo:pk+sk+ct", "combo:pkd+ct", "combo:pk+pkd+ct", "combo:sk+pkd+ct", "combo:all",
        ][combo as usize],
        1,
    );
    c.distinct(&ctb);
    c.sample(|| format!("seed {} enc_seed {} -> ss {}", hexs(&s), hexs(&es), hexs(&ss0)));
    Ok(())
}

// ---------------------------------------------------------------- K02

fn k02<T: K>(c: &mut Case) -> Res {
    let k = T::W;
    let s = seed64(&mut c.rng);
    let es = seed32(&mut c.rng);
    let (pk, sk) = c.guard("keygen", || T::keygen(&s))?;
    let mk = m::keygen(k, &s);
    let (pkb, skb) = (T::pkb(&pk), T::skb(&sk));
    ensure!(pkb == mk.pk, "spec/public-key", "{} seed={} at byte {}", T::NAME, hexs(&s), diff(&pkb, &mk.pk));
    ensure!(skb == mk.sk, "spec/secret-key", "{} seed={} at byte {}", T::NAME, hexs(&s), diff(&skb, &mk.sk));
    let h = m::h256(&[&pkb]);
    let pk_e = if c.rng.chance(1, 2) { parse_pk::<T>(c, &pkb)? } else { pk };
    let (ct, ss) = c.guard("encapsulate", || T::encaps(&es, &pk_e, &h))?;
    let (mct, mss) = m::encaps(k, &mk.pk, &h, &es);
    let ctb = T::ctb(&ct);
    ensure!(ctb == mct, "spec/ciphertext", "{} seed={} enc_seed={} at byte {}", T::NAME, hexs(&s), hexs(&es), diff(&ctb, &mct));
    ensure!(ss == mss, "spec/encapsulated-secret", "{} seed={} enc_seed={}", T::NAME, hexs(&s), hexs(&es));
    c.count("keys compared", 1);
    c.count("encapsulations compared", 1);
    // decapsulation of honest, tampered and arbitrary ciphertexts
    for j in 0..3 {
        let b = match j {
            0 => ctb.clone(),
            1 => {
                let mut b = ctb.clone();
                c.rng.mutate(&mut b);
                b
            }
            _ => c.rng.hostile(T::CT),
        };
        let ct = parse_ct::<T>(c, &b)?;
        let got = c.guard("decapsulate", || T::decaps(&sk, &pk_e, &h, &ct))?;
        let (want, ok) = m::decaps(k, &mk.sk, &mk.pk, &h, &b);
        c.count(if ok { "decapsulations accepted" } else { "decapsulations rejected" }, 1);
        ensure!(
            got == want,
            if ok { "spec/decapsulated-secret" } else { "spec/rejected-secret" },
            "{} seed={} ct={} got={} want={}",
            T::NAME, hexs(&s), hexs(&b), hexs(&got), hexs(&want)
        );
    }
    c.distinct(&ctb);
    c.sample(|| format!("seed {} enc_seed {} ct {}", hexs(&s), hexs(&es), hexs(&ctb)));
    Ok(())
}

/// Arbitrary (not honestly generated) keys: the functions are still the specified ones.
fn k02_hostile<T: K>(c: &mut Case) -> Res {
    let k = T::W;
    let pkb = c.rng.hostile(T::PK);
    let skb = c.rng.hostile(T::SK);
    let ctb = c.rng.hostile(T::CT);
    let es = seed32(&mut c.rng);
    let h = seed32(&mut c.rng);
    let pk = parse_pk::<T>(c, &pkb)?;
    let sk = parse_sk::<T>(c, &skb)?;
    let (ct, ss) = c.guard("encapsulate", || T::encaps(&es, &pk, &h))?;
    let (mct, mss) = m::encaps(k, &pkb, &h, &es);
    let b = T::ctb(&ct);
    ensure!(b == mct && ss == mss, "spec/ciphertext", "{} pk={} enc_seed={} at byte {}", T::NAME, hexs(&pkb), hexs(&es), diff(&b, &mct));
    for b in [&ctb, &b] {
        let ct = parse_ct::<T>(c, b)?;
        let got = c.guard("decapsulate", || T::decaps(&sk, &pk, &h, &ct))?;
        let (want, _) = m::decaps(k, &skb, &pkb, &h, b);
        ensure!(got == want, "spec/rejected-secret", "{} sk={} pk={} ct={}", T::NAME, hexs(&skb), hexs(&pkb), hexs(b));
        c.count("hostile decapsulations compared", 1);
    }
    c.distinct(&ctb);
    Ok(())
}

fn diff(a: &[u8], b: &[u8]) -> String {
    if a.len() != b.len() {
        return format!("length {} vs {}", a.len(), b.len());
    }
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!("{} ({:02x} vs {:02x})", i, a[i], b[i]),
        None => "none".into(),
    }
}

// ---------------------------------------------------------------- K03

fn k03<T: K>(c: &mut Case) -> Res {
    let s = seed64(&mut c.rng);
    let es = seed32(&mut c.rng);
    let (pk, sk) = c.guard("keygen", || T::keygen(&s))?;
    let pkb = T::pkb(&pk);
    let h = m::h256(&[&pkb]);
    let pk = parse_pk::<T>(c, &pkb)?;
    let (ct, ss) = c.guard("encapsulate", || T::encaps(&es, &pk, &h))?;
    let ctb = T::ctb(&ct);
    // secret key with only the rejection secret replaced
    let mut alt = T::skb(&sk);
    let n = alt.len();
    c.rng.mutate(&mut alt[n - 32..]);
    let sk_alt = parse_sk::<T>(c, &alt)?;
    let honest_alt = c.guard("decapsulate", || T::decaps(&sk_alt, &pk, &h, &ct))?;
    ensure!(honest_alt == ss, "reject/honest-depends-on-reject-secret", "{}", T::NAME);

    let mut seen: Vec<(Vec<u8>, [u8; 32])> = vec![(ctb.clone(), ss)];
    for j in 0..6 {
        let mut b = ctb.clone();
        let what = match j {
            // low-order change of the message part: still decrypts to the same plaintext
            0 => {
                let i = 352 * T::W + c.rng.below(96) as usize;
                b[i] ^= *c.rng.pick(&[0x01u8, 0x08, 0x40]);
                format!("byte {} of the compressed message part", i)
            }
            1 => {
                let i = c.rng.below(352 * T::W as u64) as usize;
                b[i] ^= 1 << c.rng.below(8);
                format!("bit of byte {} of the vector part", i)
            }
            _ => c.rng.mutate(&mut b),
        };
        if seen.iter().any(|x| x.0 == b) {
            continue;
        }
        let t = parse_ct::<T>(c, &b)?;
        let r = c.guard("decapsulate", || T::decaps(&sk, &pk, &h, &t))?;
        let r2 = c.guard("decapsulate", || T::decaps(&sk, &pk, &h, &t))?;
        ensure!(r == r2, "reject/unstable", "rejection secret is not deterministic");
        for (b2, r2) in &seen {
            ensure!(
                r != *r2,
                "reject/collision",
                "{} two different ciphertexts ({}; {} and {}) give the same secret {}",
                T::NAME, what, hexs(&b), hexs(b2), hexs(&r)
            );
        }
        let ra = c.guard("decapsulate", || T::decaps(&sk_alt, &pk, &h, &t))?;
        ensure!(
            ra != r,
            "reject/independent-of-reject-secret",
            "{} rejection does not depend on the rejection secret ({})",
            T::NAME, what
        );
        c.count("tampered ciphertexts", 1);
        c.distinct(&b);
        c.sample(|| format!("{}: {} -> {}", T::NAME, what, hexs(&r)));
        seen.push((b, r));
    }
    // a ciphertext for one key presented to another key, and the wrong key hash
    let s2 = seed64(&mut c.rng);
    if s2 != s {
        let (pk2, sk2) = c.guard("keygen", || T::keygen(&s2))?;
        let pk2b = T::pkb(&pk2);
        let h2 = m::h256(&[&pk2b]);
        if pk2b != pkb {
            let x = c.guard("decapsulate", || T::decaps(&sk2, &pk2, &h2, &ct))?;
            ensure!(x != ss, "reject/foreign-key", "ciphertext accepted by a different key");
        }
    }
    let mut hh = h;
    c.rng.mutate(&mut hh);
    let x = c.guard("decapsulate", || T::decaps(&sk, &pk, &hh, &ct))?;
    ensure!(x != ss, "reject/foreign-hash", "ciphertext accepted under a different key hash");
    Ok(())
}

/// Every single-bit change of one ciphertext; case index selects key and byte range.
fn k03_bits<T: K>(c: &mut Case) -> Res {
    // 16 bytes per case
    let per = 16u64;
    let chunks = (T::CT as u64 + per - 1) / per;
    let key = c.index / chunks;
    let chunk = c.index % chunks;
    let mut r = Rng::new(key ^ 0x5eed);
    let s: [u8; 64] = arr(r.bytes(64));
    let es: [u8; 32] = arr(r.bytes(32));
    let (pk, sk) = c.guard("keygen", || T::keygen(&s))?;
    let h = m::h256(&[&T::pkb(&pk)]);
    let (ct, ss) = c.guard("encapsulate", || T::encaps(&es, &pk, &h))?;
    let ctb = T::ctb(&ct);
    let mut seen = std::collections::HashMap::new();
    seen.insert(ss, usize::MAX);
    for i in (chunk * per) as usize..((chunk + 1) * per).min(T::CT as u64) as usize {
        for bit in 0..8 {
            let mut b = ctb.clone();
            b[i] ^= 1 << bit;
            let t = parse_ct::<T>(c, &b)?;
            let r = c.guard("decapsulate", || T::decaps(&sk, &pk, &h, &t))?;
            c.count("single-bit changes", 1);
            if let Some(j) = seen.insert(r, i * 8 + bit) {
                return fail(
                    "reject/collision",
                    format!("{} flipping bit {} gives the same secret as bit {} (max = honest)", T::NAME, i * 8 + bit, j),
                );
            }
            c.distinct(&b);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- K04

fn k04<T: K>(c: &mut Case) -> Res {
    // bytes -> object -> bytes
    let b = c.rng.hostile(T::CT);
    let o = parse_ct::<T>(c, &b)?;
    let e = c.guard("encode", || T::ctb(&o))?;
    ensure!(e == b, "encoding/ciphertext", "{} {} -> at byte {}", T::NAME, hexs(&b), diff(&e, &b));
    c.distinct(&b);
    let b = c.rng.hostile(T::PK);
    let o = parse_pk::<T>(c, &b)?;
    let e = c.guard("encode", || T::pkb(&o))?;
    ensure!(e == b, "encoding/public-key", "{} {} -> at byte {}", T::NAME, hexs(&b), diff(&e, &b));
    // secret key bytes may hold non-canonical residues: the encoding is the canonical residue
    let b = c.rng.hostile(T::SK);
    let o = parse_sk::<T>(c, &b)?;
    let e = c.guard("encode", || T::skb(&o))?;
    let n = 416 * T::W;
    ensure!(canonical(&b[..n]) == e[..n] && b[n..] == e[n..], "encoding/secret-key", "{} {}", T::NAME, hexs(&b));
    let (x, y) = T::sk_split(&o);
    ensure!(x == e[..n] && y == e[n..], "encoding/secret-key-parts", "{}", T::NAME);
    let o2 = parse_sk::<T>(c, &e)?;
    ensure!(T::skb(&o2) == e, "encoding/secret-key", "{} canonical form is not a fixed point", T::NAME);
    c.count("arbitrary encodings", 3);
    // generated objects, and functional equality after the trip
    if c.index % 4 == 0 {
        let s = seed64(&mut c.rng);
        let es = seed32(&mut c.rng);
        let h = seed32(&mut c.rng);
        let (pk, sk) = c.guard("keygen", || T::keygen(&s))?;
        let (pb, sb) = (T::pkb(&pk), T::skb(&sk));
        ensure!(pb.len() == T::PK && sb.len() == T::SK, "encoding/length", "{} {} {}", T::NAME, pb.len(), sb.len());
        let pk2 = parse_pk::<T>(c, &pb)?;
        let sk2 = parse_sk::<T>(c, &sb)?;
        ensure!(T::pkb(&pk2) == pb, "encoding/public-key", "generated key, seed {}", hexs(&s));
        ensure!(T::skb(&sk2) == sb, "encoding/secret-key", "generated key, seed {}", hexs(&s));
        let (c1, s1) = c.guard("encapsulate", || T::encaps(&es, &pk, &h))?;
        let (c2, s2) = c.guard("encapsulate", || T::encaps(&es, &pk2, &h))?;
        let (c1b, c2b) = (T::ctb(&c1), T::ctb(&c2));
        ensure!(
            c1b == c2b && s1 == s2,
            "encoding/public-key-behaviour",
            "{} a public key encapsulates differently after encode+parse, seed {} enc_seed {}",
            T::NAME, hexs(&s), hexs(&es)
        );
        let mut t = c1b.clone();
        if c.rng.chance(1, 2) {
            c.rng.mutate(&mut t);
        }
        let ct = parse_ct::<T>(c, &t)?;
        let a = c.guard("decapsulate", || T::decaps(&sk, &pk, &h, &ct))?;
        let b = c.guard("decapsulate", || T::decaps(&sk2, &pk2, &h, &ct))?;
        ensure!(a == b, "encoding/secret-key-behaviour", "{} seed {}", T::NAME, hexs(&s));
        c.count("generated objects", 1);
        c.sample(|| format!("{} pk {} sk {}", T::NAME, hexs(&pb), hexs(&sb)));
    }
    Ok(())
}

fn canonical(b: &[u8]) -> Vec<u8> {
    // 13-bit little-endian residues, reduced mod q
    let mut out = vec![0u8; b.len()];
    let n = b.len() * 8 / 13;
    for i in 0..n {
        let mut v = 0u32;
        for j in 0..13 {
            let p = i * 13 + j;
            v |= (((b[p / 8] >> (p % 8)) & 1) as u32) << j;
        }
        v %= m::Q;
        for j in 0..13 {
            let p = i * 13 + j;
            out[p / 8] |= (((v >> j) & 1) as u8) << (p % 8);
        }
    }
    out
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let mut k = Check::new(&id);
    k.assume("SHA-3/SHAKE of the sha3 crate are correct (shared by model and implementation)");
    match id.as_str() {
        "K01" => {
            k.rule("random and structured (constant, single-bit, runs, counters) 64-byte key seeds and 32-byte encapsulation seeds, all 16 combinations of fresh/re-parsed objects, three parameter sets; non-trivial = distinct ciphertext for which both ends produced a secret");
            k.family("k2", 60_000, 2_000_000, k01::<Kyber2>);
            k.family("k3", 40_000, 1_500_000, k01::<Kyber3>);
            k.family("k4", 30_000, 1_000_000, k01::<Kyber4>);
            k.floor("agreements", 10_000);
            k.floor("combo:all", 100);
            k.floor("combo:fresh", 100);
        }
        "K02" => {
            k.rule("outputs of key generation, encapsulation and decapsulation (accepting and rejecting, honest and arbitrary keys) compared byte for byte with an independent model; non-trivial = distinct ciphertext compared");
            k.family("k2", 20_000, 800_000, k02::<Kyber2>);
            k.family("k3", 15_000, 600_000, k02::<Kyber3>);
            k.family("k4", 10_000, 400_000, k02::<Kyber4>);
            k.family("hostile-k2", 10_000, 400_000, k02_hostile::<Kyber2>);
            k.family("hostile-k3", 8_000, 300_000, k02_hostile::<Kyber3>);
            k.family("hostile-k4", 6_000, 200_000, k02_hostile::<Kyber4>);
            k.floor("decapsulations accepted", 3_000);
            k.floor("decapsulations rejected", 3_000);
        }
        "K03" => {
            k.rule("tampered ciphertexts (bit flips, byte sets, swaps, ranges, low-order message bits, every single bit of fixed ciphertexts, foreign keys and key hashes); non-trivial = distinct tampered ciphertext decapsulated");
            k.family("bits-k2", 50 * 2, 50 * 40, k03_bits::<Kyber2>);
            k.family("bits-k3", 72 * 2, 72 * 40, k03_bits::<Kyber3>);
            k.family("bits-k4", 94 * 2, 94 * 40, k03_bits::<Kyber4>);
            k.family("k2", 8_000, 300_000, k03::<Kyber2>);
            k.family("k3", 6_000, 200_000, k03::<Kyber3>);
            k.family("k4", 4_000, 150_000, k03::<Kyber4>);
            k.floor("tampered ciphertexts", 10_000);
            k.floor("single-bit changes", 20_000);
        }
        "K04" => {
            k.rule("arbitrary and generated encodings of ciphertexts, public and secret keys, parsed and re-encoded; non-trivial = distinct ciphertext encoding");
            k.family("k2", 60_000, 2_000_000, k04::<Kyber2>);
            k.family("k3", 40_000, 1_500_000, k04::<Kyber3>);
            k.family("k4", 30_000, 1_000_000, k04::<Kyber4>);
            k.floor("arbitrary encodings", 20_000);
            k.floor("generated objects", 3_000);
        }
        _ => {
            eprintln!("unknown property {}", id);
            std::process::exit(2);
        }
    }
    k.finish()
}
