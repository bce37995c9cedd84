mod hs;
mod objects;
use hs::*;
use models::session as m;
use mon::{ensure, fail, hexs, Case, Check, Res, Rng};
use vru_session::handshake::{xx, Identity, PublicKey, SecretKey, TrivialCipher};

pub fn seeds(r: &mut Rng) -> m::Seeds {
    // mostly random, sometimes structured
    let mut g = |n: usize| if r.chance(1, 3) { r.hostile(n) } else { r.bytes(n) };
    m::Seeds { i_s: g(96), r_s: g(96), i_e: g(96), r_e: g(96), r_ec: g(32), i_ec: g(32), i_sc: g(32), r_sc: g(32) }
}
fn field(s: &mut m::Seeds, i: usize) -> (&'static str, &mut Vec<u8>) {
    match i {
        0 => ("initiator static", &mut s.i_s),
        1 => ("responder static", &mut s.r_s),
        2 => ("initiator ephemeral", &mut s.i_e),
        3 => ("responder ephemeral", &mut s.r_e),
        4 => ("responder encapsulation to ephemeral", &mut s.r_ec),
        5 => ("initiator encapsulation to ephemeral", &mut s.i_ec),
        6 => ("initiator encapsulation to static", &mut s.i_sc),
        _ => ("responder encapsulation to static", &mut s.r_sc),
    }
}

pub struct Pair {
    pub pk: PublicKey,
    pub sk: SecretKey,
    pub pi: Identity,
}
pub fn pair(seed: &[u8]) -> Pair {
    let (pk, sk) = gen(seed);
    let pi = pk.identity();
    Pair { pk, sk, pi }
}

fn cat(a: &[u8], b: &[u8]) -> Vec<u8> {
    [a, b].concat()
}

fn payloads(r: &mut Rng, h: &dyn Hs) -> [Vec<u8>; 4] {
    h.sizes().map(|n| r.hostile(n))
}

/// True if two ends exchange messages in both directions.
fn works(a: &mut TrivialCipher, b: &mut TrivialCipher) -> bool {
    let mut x = b"from a".to_vec();
    a.encrypt_ext(b"", &mut x);
    let mut y = b"from b, longer".to_vec();
    b.encrypt_ext(b"", &mut y);
    let ok1 = b.decrypt_ext(b"", &mut x).is_ok() && x == b"from a";
    let ok2 = a.decrypt_ext(b"", &mut y).is_ok() && y == b"from b, longer";
    ok1 && ok2
}

// ---------------------------------------------------------------- S01

pub struct Done {
    pub messages: [Vec<u8>; 4],
    pub hash: Vec<u8>,
    pub ic: TrivialCipher,
    pub rc: TrivialCipher,
}

/// An honest run; every disagreement between the two ends is a failure.
pub fn honest(c: &mut Case, h: &dyn Hs, s: &m::Seeds, p: &[Vec<u8>; 4]) -> Res<Done> {
    let i = c.guard("generate", || pair(&s.i_s))?;
    let r = c.guard("generate", || pair(&s.r_s))?;
    let (ist, m0) = c.guard("out0", || out0(&s.i_e, &r.pi))?;
    let (rst, m1) = c.guard("take0_out1", || h.respond(&cat(&s.r_e, &s.r_ec), &r.pi, &r.pk, &r.sk, &m0, &p[0]))?;
    let (ist, rpk, gp, m2) = match c.guard("take1_out2", || h.confirm(&cat(&s.i_ec, &s.i_sc), ist, &i.pk, &i.sk, &m1, &p[1], &p[2]))? {
        Ok(v) => v,
        Err(e) => return fail("honest/rejected", format!("initiator rejects message 1: {}", e)),
    };
    let (mut rc, rh, ipk, gq, gr, m3) = match c.guard("take2_out3", || h.accept(&s.r_sc, rst, &r.pk, &r.sk, &m2, &p[3]))? {
        Ok(v) => v,
        Err(e) => return fail("honest/rejected", format!("responder rejects message 2: {}", e)),
    };
    let (mut ic, ih, gs) = match c.guard("take_3", || h.finish(ist, &i.pk, &i.sk, &m3))? {
        Ok(v) => v,
        Err(e) => return fail("honest/rejected", format!("initiator rejects message 3: {}", e)),
    };
    ensure!(ih == rh, "honest/hash", "handshake hashes differ: {} {}", hexs(&ih), hexs(&rh));
    ensure!(gp == p[0] && gq == p[1] && gr == p[2] && gs == p[3], "honest/payload", "a payload arrived changed");
    ensure!(pkb(&rpk) == pkb(&r.pk) && rpk.identity() == r.pi, "honest/peer-key", "initiator learned a different static key");
    ensure!(pkb(&ipk) == pkb(&i.pk) && ipk.identity() == i.pi, "honest/peer-key", "responder learned a different static key");
    let (ic0, rc0) = (ic.clone(), rc.clone());
    ensure!(works(&mut ic, &mut rc), "honest/channel", "the two ends cannot talk");
    c.count("honest handshakes", 1);
    Ok(Done { messages: [m0, m1, m2, m3], hash: ih, ic: ic0, rc: rc0 })
}

/// Sources of randomness that coincide, within a party or between them (down to a node that dials itself).
fn related(r: &mut Rng, s: &mut m::Seeds) {
    if r.chance(1, 8) {
        let (a, b) = (r.bytes(96), r.bytes(32));
        for i in 0..8 {
            let f = field(s, i).1;
            *f = if f.len() == 96 { a.clone() } else { b.clone() };
        }
        return;
    }
    for _ in 0..r.range(1, 4) {
        let i = r.below(8) as usize;
        let v = field(s, i).1.clone();
        let j = r.below(8) as usize;
        let f = field(s, j).1;
        let n = f.len().min(v.len());
        f[..n].copy_from_slice(&v[..n]);
    }
}

fn s01(c: &mut Case) -> Res {
    let h = ALL[(c.index % 5) as usize];
    let mut s = seeds(&mut c.rng);
    if c.rng.chance(1, 3) {
        related(&mut c.rng, &mut s);
        c.count("runs with coinciding randomness", 1);
    }
    let p = payloads(&mut c.rng, h);
    let mut d = honest(c, h, &s, &p)?;
    let model = m::run(&s, [&p[0], &p[1], &p[2], &p[3]]);
    for n in 0..4 {
        ensure!(
            d.messages[n] == model.messages[n],
            "wire/message",
            "message {} differs from the specified bytes at {:?} (sizes {:?})",
            n,
            d.messages[n].iter().zip(&model.messages[n]).position(|(a, b)| a != b),
            h.sizes()
        );
        c.count("messages compared", 1);
    }
    ensure!(d.hash == model.hash, "wire/hash", "handshake hash {} want {}", hexs(&d.hash), hexs(&model.hash));
    let a = models::noise::A::ChaCha;
    for n in 0..3u64 {
        let l = c.rng.size(60);
        let pt = c.rng.bytes(l);
        let mut x = pt.clone();
        d.ic.encrypt_ext(b"ad", &mut x);
        ensure!(x == a.seal(&model.keys.0, n, b"ad", &pt), "wire/channel", "initiator's channel message {}", n);
        let mut x = pt.clone();
        d.rc.encrypt_ext(b"ad", &mut x);
        ensure!(x == a.seal(&model.keys.1, n, b"ad", &pt), "wire/channel", "responder's channel message {}", n);
    }
    c.distinct(&d.hash);
    c.sample(|| format!("payload sizes {:?}, handshake hash {}", h.sizes(), hexs(&d.hash)));
    Ok(())
}

// ---------------------------------------------------------------- S02

/// Message `n` of an otherwise honest run is replaced; returns what noticed it.
fn with_tamper(c: &mut Case, h: &dyn Hs, s: &m::Seeds, p: &[Vec<u8>; 4], n: usize, what: &str, f: impl FnOnce(&mut Case, &mut Vec<u8>)) -> Res {
    let i = pair(&s.i_s);
    let r = pair(&s.r_s);
    let mut f = Some(f);
    let mut hit = |c: &mut Case, k: usize, m: &mut Vec<u8>| -> bool {
        if k == n {
            let old = m.clone();
            (f.take().unwrap())(c, m);
            return old != *m;
        }
        true
    };
    let (ist, mut m0) = out0(&s.i_e, &r.pi);
    if !hit(c, 0, &mut m0) {
        return Ok(());
    }
    if n == 0 && !m::decodable(&m0) {
        c.count("undecodable message 0 (see S04)", 1);
        return Ok(());
    }
    c.count("tampered messages", 1);
    c.sample(|| format!("message {} altered: {}", n, what));
    c.distinct(format!("{} {}", n, what).as_bytes());
    let (rst, mut m1) = c.guard("take0_out1", || h.respond(&cat(&s.r_e, &s.r_ec), &r.pi, &r.pk, &r.sk, &m0, &p[0]))?;
    if !hit(c, 1, &mut m1) {
        return Ok(());
    }
    let x = c.guard("take1_out2", || h.confirm(&cat(&s.i_ec, &s.i_sc), ist, &i.pk, &i.sk, &m1, &p[1], &p[2]))?;
    let (ist, _, _, mut m2) = match x {
        Ok(v) if n > 1 => v,
        Ok(_) => return fail(format!("tamper/message{}", n), format!("message {} changed ({}) and the initiator went on", n, what)),
        Err(_) if n > 1 => return fail("honest/rejected", "message 1"),
        Err(_) => {
            c.count("detected by initiator", 1);
            return Ok(());
        }
    };
    if !hit(c, 2, &mut m2) {
        return Ok(());
    }
    let x = c.guard("take2_out3", || h.accept(&s.r_sc, rst, &r.pk, &r.sk, &m2, &p[3]))?;
    let (_, _, _, _, _, mut m3) = match x {
        Ok(v) if n > 2 => v,
        Ok(_) => return fail("tamper/message2", format!("message 2 changed ({}) and the responder accepted it", what)),
        Err(_) if n > 2 => return fail("honest/rejected", "message 2"),
        Err(_) => {
            c.count("detected by responder", 1);
            return Ok(());
        }
    };
    if !hit(c, 3, &mut m3) {
        return Ok(());
    }
    match c.guard("take_3", || h.finish(ist, &i.pk, &i.sk, &m3))? {
        Ok(_) => fail("tamper/message3", format!("message 3 changed ({}) and the initiator accepted it", what)),
        Err(_) => {
            c.count("detected by initiator", 1);
            Ok(())
        }
    }
}

fn fixed_seeds(k: u64) -> m::Seeds {
    let mut r = Rng::new(k ^ 0x5e55);
    let mut g = |n: usize| r.bytes(n);
    m::Seeds { i_s: g(96), r_s: g(96), i_e: g(96), r_e: g(96), r_ec: g(32), i_ec: g(32), i_sc: g(32), r_sc: g(32) }
}

fn lens() -> [usize; 4] {
    static LENS: std::sync::OnceLock<[usize; 4]> = std::sync::OnceLock::new();
    *LENS.get_or_init(|| {
        let p: [Vec<u8>; 4] = Even.sizes().map(|n| vec![0x11; n]);
        m::run(&fixed_seeds(1), [&p[0], &p[1], &p[2], &p[3]]).messages.map(|x| x.len())
    })
}

/// Every byte of every message (quick: one bit each, thorough: every bit).
fn s02_bytes(c: &mut Case) -> Res {
    let h: &dyn Hs = &Even;
    let s = fixed_seeds(1);
    let p: [Vec<u8>; 4] = h.sizes().map(|n| vec![0x11; n]);
    let lens = lens();
    let total: usize = lens.iter().sum();
    let mut k = (c.index as usize) % total;
    let round = c.index as usize / total;
    let mut n = 0;
    while k >= lens[n] {
        k -= lens[n];
        n += 1;
    }
    let bit = (k + round) % 8;
    with_tamper(c, h, &s, &p, n, &format!("bit {} of byte {}", bit, k), |_, m| {
        m[k] ^= 1 << bit
    })
}

/// The positions where a field of a message begins or ends (each elliptic encoding, each tag).
fn edges() -> Vec<(usize, usize)> {
    let lens = lens();
    let [p, q, r, s] = Even.sizes();
    let (ct, pk, tag) = (1152, 1120, 16);
    let fields: [&[usize]; 4] = [&[32, pk - 32 - 32, 32], &[ct, p, tag, 32, pk - 32, 32, pk - 32, tag], &[ct, q, tag, ct, 32, pk - 32, tag, r, tag], &[ct, s, tag]];
    let mut v = vec![];
    for n in 0..4 {
        assert_eq!(fields[n].iter().sum::<usize>(), lens[n]);
        let mut at = 0;
        for f in fields[n] {
            for k in 0..*f {
                if *f <= 32 || k < 4 || k + 4 >= *f {
                    v.push((n, at + k));
                }
            }
            at += f;
        }
    }
    v
}

/// Every bit of those bytes.
fn s02_edges(c: &mut Case) -> Res {
    let h: &dyn Hs = &Even;
    let v = edges();
    let (n, k) = v[(c.index as usize / 8) % v.len()];
    let bit = c.index % 8;
    let s = fixed_seeds(2 + c.index / 8 / v.len() as u64);
    let p: [Vec<u8>; 4] = h.sizes().map(|n| vec![0x11; n]);
    c.count("bits at the edges of fields", 1);
    with_tamper(c, h, &s, &p, n, &format!("bit {} of byte {}", bit, k), |_, m| m[k] ^= 1 << bit)
}

fn s02(c: &mut Case) -> Res {
    let h = ALL[(c.index % 5) as usize];
    let s = seeds(&mut c.rng);
    let p = payloads(&mut c.rng, h);
    let n = c.rng.below(4) as usize;
    let how = c.rng.below(4);
    let what = format!("mutation {} of case {}", how, c.index);
    let s2 = seeds(&mut c.rng);
    let other = if how == 0 {
        // the same message of another run between the same identities
        let mut t = s2.clone();
        t.i_s = s.i_s.clone();
        t.r_s = s.r_s.clone();
        if how == 0 && c.rng.chance(1, 2) {
            // even one that shares all but one source of randomness
            // (never one of the sender's own for that message: that would be a legitimate variant)
            let ks: &[usize] = [&[2][..], &[2], &[2, 3, 4], &[2, 3, 4, 5, 6]][n];
            let k = *c.rng.pick(ks);
            t = s.clone();
            let (_, f) = field(&mut t, k);
            let l = f.len();
            *f = c.rng.bytes(l);
        }
        Some(honest(c, h, &t, &p)?.messages[n].clone())
    } else {
        None
    };
    with_tamper(c, h, &s, &p, n, &what, |c, m| match other {
        Some(o) => *m = o,
        None => {
            c.rng.mutate(m);
        }
    })
}

// ---------------------------------------------------------------- S03

fn s03(c: &mut Case) -> Res {
    let h = ALL[(c.index % 5) as usize];
    let s = seeds(&mut c.rng);
    let p = payloads(&mut c.rng, h);
    let i = pair(&s.i_s);
    let r = pair(&s.r_s);
    let evil_seed = c.rng.bytes(96);
    let evil = pair(&evil_seed);
    let conf = cat(&s.i_ec, &s.i_sc);
    let resp = cat(&s.r_e, &s.r_ec);
    // secret halves of `evil` grafted on the victim's seed: [elliptic 32][lattice 64]
    let graft = |victim: &[u8], k: u64| -> SecretKey {
        let mut t = victim.to_vec();
        if k != 1 {
            t[..32].copy_from_slice(&evil_seed[..32]);
        }
        if k != 0 {
            t[32..].copy_from_slice(&evil_seed[32..]);
        }
        gen(&t).1
    };
    let scenario = c.index % 8;
    c.distinct(format!("{} {}", scenario, c.index).as_bytes());
    match scenario {
        0 => {
            // man in the middle answers for the dialled identity with its own static key
            let (ist, m0) = out0(&s.i_e, &r.pi);
            let (_, m1) = h.respond(&resp, &r.pi, &evil.pk, &evil.sk, &m0, &p[0]);
            let x = c.guard("take1_out2", || h.confirm(&conf, ist, &i.pk, &i.sk, &m1, &p[1], &p[2]))?;
            c.count("responder with a foreign key", 1);
            ensure!(x.is_err(), "auth/foreign-responder", "dialled {} but accepted a peer with key {}", r.pi, evil.pi);
        }
        1 => {
            // dialled identity is not the one of the party that answers honestly
            let (ist, m0) = out0(&s.i_e, &evil.pi);
            let (_, m1) = h.respond(&resp, &r.pi, &r.pk, &r.sk, &m0, &p[0]);
            let x = c.guard("take1_out2", || h.confirm(&conf, ist, &i.pk, &i.sk, &m1, &p[1], &p[2]))?;
            c.count("wrong identity dialled", 1);
            ensure!(x.is_err(), "auth/wrong-identity", "dialled {} and accepted {}", evil.pi, r.pi);
        }
        2 | 3 | 4 => {
            // impostor presents the dialled public key without (all of) its secret
            let k = scenario - 2; // 0 wrong elliptic, 1 wrong lattice, 2 both
            let sk = graft(&s.r_s, k);
            let (ist, m0) = out0(&s.i_e, &r.pi);
            let (rst, m1) = h.respond(&resp, &r.pi, &r.pk, &sk, &m0, &p[0]);
            let x = c.guard("take1_out2", || h.confirm(&conf, ist, &i.pk, &i.sk, &m1, &p[1], &p[2]))?;
            c.count("responder without the secret", 1);
            if let Ok((ist, _, _, m2)) = x {
                let y = c.guard("take2_out3", || h.accept(&s.r_sc, rst, &r.pk, &sk, &m2, &p[3]))?;
                if let Ok((mut rc, _, _, _, _, m3)) = y {
                    let z = c.guard("take_3", || h.finish(ist, &i.pk, &i.sk, &m3))?;
                    if let Ok((mut ic, _, _)) = z {
                        let w = works(&mut ic, &mut rc);
                        return fail(
                            "auth/responder-without-secret",
                            format!("a responder missing {} completed the handshake (channel works: {})", ["the elliptic secret", "the lattice secret", "both secrets"][k as usize], w),
                        );
                    }
                    return fail("auth/responder-without-secret", "the impostor could read the initiator's message 2");
                }
            }
        }
        7 => {
            // the answering party's identity resembles the dialled one
            let mut near = r.pi.as_ref().to_vec();
            let how = c.rng.mutate(&mut near);
            let dialled: Identity = bincode::deserialize(&near).unwrap();
            let (ist, m0) = out0(&s.i_e, &dialled);
            let (_, m1) = h.respond(&resp, &dialled, &r.pk, &r.sk, &m0, &p[0]);
            let x = c.guard("take1_out2", || h.confirm(&conf, ist, &i.pk, &i.sk, &m1, &p[1], &p[2]))?;
            c.count("responder with a similar identity", 1);
            ensure!(x.is_err(), "auth/similar-identity", "dialled {} and accepted {} ({})", dialled, r.pi, how);
        }
        5 => {
            // initiator presents the victim's public key without (all of) its secret
            let k = c.rng.below(3);
            let sk = graft(&s.i_s, k);
            let (ist, m0) = out0(&s.i_e, &r.pi);
            let (rst, m1) = h.respond(&resp, &r.pi, &r.pk, &r.sk, &m0, &p[0]);
            let x = c.guard("take1_out2", || h.confirm(&conf, ist, &i.pk, &sk, &m1, &p[1], &p[2]))?;
            let Ok((ist, _, _, m2)) = x else {
                return fail("honest/rejected", "message 1");
            };
            c.count("initiator without the secret", 1);
            let y = c.guard("take2_out3", || h.accept(&s.r_sc, rst, &r.pk, &r.sk, &m2, &p[3]))?;
            match y {
                Ok((mut rc, rh, _, _, _, m3)) => {
                    ensure!(k == 1, "auth/initiator-without-secret", "the responder accepted an initiator missing the elliptic secret");
                    let z = c.guard("take_3", || h.finish(ist, &i.pk, &sk, &m3))?;
                    if let Ok((mut ic, ih, _)) = z {
                        return fail(
                            "auth/initiator-without-secret",
                            format!("an initiator missing the lattice secret completed (hash equal {}, channel {})", ih == rh, works(&mut ic, &mut rc)),
                        );
                    }
                    c.count("stopped at the last message", 1);
                }
                Err(_) => c.count("stopped at message 2", 1),
            }
        }
        _ => {
            // messages of a concurrent run between the same honest parties do not mix
            let mut t = seeds(&mut c.rng);
            t.i_s = s.i_s.clone();
            t.r_s = s.r_s.clone();
            if t.i_e == s.i_e || t.r_e == s.r_e {
                return Ok(());
            }
            let (ia, a0) = out0(&s.i_e, &r.pi);
            let (ib, b0) = out0(&t.i_e, &r.pi);
            if a0 == b0 {
                return Ok(());
            }
            let (ra, a1) = h.respond(&resp, &r.pi, &r.pk, &r.sk, &a0, &p[0]);
            let (rb, b1) = h.respond(&cat(&t.r_e, &t.r_ec), &r.pi, &r.pk, &r.sk, &b0, &p[0]);
            c.count("concurrent runs", 1);
            match c.rng.below(2) {
                0 => {
                    let x = c.guard("take1_out2", || h.confirm(&conf, ia, &i.pk, &i.sk, &b1, &p[1], &p[2]))?;
                    ensure!(x.is_err(), "auth/cross-session", "message 1 of another run accepted");
                }
                _ => {
                    let Ok((_, _, _, a2)) = h.confirm(&conf, ia, &i.pk, &i.sk, &a1, &p[1], &p[2]) else {
                        return fail("honest/rejected", "message 1");
                    };
                    let Ok((fb, _, _, b2)) = h.confirm(&cat(&t.i_ec, &t.i_sc), ib, &i.pk, &i.sk, &b1, &p[1], &p[2]) else {
                        return fail("honest/rejected", "message 1");
                    };
                    let x = c.guard("take2_out3", || h.accept(&s.r_sc, rb, &r.pk, &r.sk, &a2, &p[3]))?;
                    ensure!(x.is_err(), "auth/cross-session", "message 2 of another run accepted");
                    let Ok((_, _, _, _, _, a3)) = h.accept(&s.r_sc, ra, &r.pk, &r.sk, &a2, &p[3]) else {
                        return fail("honest/rejected", "message 2");
                    };
                    let _ = b2;
                    let x = c.guard("take_3", || h.finish(fb, &i.pk, &i.sk, &a3))?;
                    ensure!(x.is_err(), "auth/cross-session", "message 3 of another run accepted");
                }
            }
        }
    }
    c.count("impostor runs", 1);
    c.sample(|| format!("scenario {} of 8, payload sizes {:?}", scenario, h.sizes()));
    Ok(())
}

// ---------------------------------------------------------------- S04

/// Bytes for a message: arbitrary, structured, or an honest message damaged in interesting places.
fn hostile(r: &mut Rng, honest: &[u8], keys: &[usize]) -> Vec<u8> {
    let mut b = match r.below(4) {
        0 => r.hostile(honest.len()),
        _ => honest.to_vec(),
    };
    for _ in 0..r.below(3) {
        r.mutate(&mut b);
    }
    for &k in keys {
        if r.chance(1, 2) {
            // encodings at the edges of the curve's format
            let e: [u8; 32] = match r.below(6) {
                0 => [0; 32],
                1 => [0xff; 32],
                2 => {
                    let mut x = [0; 32];
                    x[0] = r.below(8) as u8;
                    x[31] = (r.below(2) as u8) << 7;
                    x
                }
                3 => {
                    // p - 1 .. p + small, non-canonical
                    let mut x = [0xff; 32];
                    x[0] = 0xe9 + r.below(20) as u8;
                    x[31] = 0x7f | ((r.below(2) as u8) << 7);
                    x
                }
                _ => r.bytes(32).try_into().unwrap(),
            };
            b[k..k + 32].copy_from_slice(&e);
        }
    }
    b
}

fn s04(c: &mut Case) -> Res {
    let h = ALL[(c.index % 5) as usize];
    let s = seeds(&mut c.rng);
    let p = payloads(&mut c.rng, h);
    let n = h.sizes();
    let i = pair(&s.i_s);
    let r = pair(&s.r_s);
    let conf = cat(&s.i_ec, &s.i_sc);
    let resp = cat(&s.r_e, &s.r_ec);
    let (ist, m0) = out0(&s.i_e, &r.pi);
    match (c.index / 5) % 4 {
        0 => {
            let b = hostile(&mut c.rng, &m0, &[0]);
            c.distinct(&b);
            c.count("hostile message 0", 1);
            let x = c.guard("take0_out1", || h.respond(&resp, &r.pi, &r.pk, &r.sk, &b, &p[0]));
            match x {
                Err(e) if !m::decodable(&b) => {
                    return fail("panic/respond-to-undecodable-ephemeral", e.detail);
                }
                Err(e) => return Err(e),
                Ok((_, m1)) => {
                    // whatever was answered, the honest initiator copes
                    let same = b == m0;
                    let y = c.guard("take1_out2", || h.confirm(&conf, ist, &i.pk, &i.sk, &m1, &p[1], &p[2]))?;
                    ensure!(same || y.is_err(), "hostile/accepted", "a run whose first message was altered went on");
                }
            }
        }
        1 => {
            let (_, m1) = h.respond(&resp, &r.pi, &r.pk, &r.sk, &m0, &p[0]);
            let b = hostile(&mut c.rng, &m1, &[1168 + n[0]]);
            c.distinct(&b);
            c.count("hostile message 1", 1);
            let x = c.guard("take1_out2", || h.confirm(&conf, ist, &i.pk, &i.sk, &b, &p[1], &p[2]))?;
            ensure!(x.is_err() || b == m1, "hostile/accepted", "altered message 1 accepted");
        }
        2 => {
            let (rst, m1) = h.respond(&resp, &r.pi, &r.pk, &r.sk, &m0, &p[0]);
            let Ok((_, _, _, m2)) = h.confirm(&conf, ist, &i.pk, &i.sk, &m1, &p[1], &p[2]) else {
                return fail("honest/rejected", "message 1");
            };
            let b = hostile(&mut c.rng, &m2, &[]);
            c.distinct(&b);
            c.count("hostile message 2", 1);
            let x = c.guard("take2_out3", || h.accept(&s.r_sc, rst, &r.pk, &r.sk, &b, &p[3]))?;
            ensure!(x.is_err() || b == m2, "hostile/accepted", "altered message 2 accepted");
        }
        _ => {
            let (rst, m1) = h.respond(&resp, &r.pi, &r.pk, &r.sk, &m0, &p[0]);
            let Ok((fi, _, _, m2)) = h.confirm(&conf, ist, &i.pk, &i.sk, &m1, &p[1], &p[2]) else {
                return fail("honest/rejected", "message 1");
            };
            let Ok((_, _, _, _, _, m3)) = h.accept(&s.r_sc, rst, &r.pk, &r.sk, &m2, &p[3]) else {
                return fail("honest/rejected", "message 2");
            };
            let b = hostile(&mut c.rng, &m3, &[]);
            c.distinct(&b);
            c.count("hostile message 3", 1);
            let x = c.guard("take_3", || h.finish(fi, &i.pk, &i.sk, &b))?;
            ensure!(x.is_err() || b == m3, "hostile/accepted", "altered message 3 accepted");
        }
    }
    let stage = (c.index / 5) % 4;
    c.sample(|| format!("stage {} payload sizes {:?}", stage, n));
    Ok(())
}

/// A malicious but protocol-following peer: it knows all session keys, so undecodable keys and odd
/// points arrive correctly authenticated.
fn s04_insider(c: &mut Case) -> Res {
    use models::noise::{Suite, Sym, A, H};
    let h: &dyn Hs = &Even;
    let s = seeds(&mut c.rng);
    let p = payloads(&mut c.rng, h);
    let i = pair(&s.i_s);
    let r = pair(&s.r_s);
    let (mi, mr) = (m::Key::generate(&s.i_s), m::Key::generate(&s.r_s));
    let (mie, mre) = (m::Key::generate(&s.i_e), m::Key::generate(&s.r_e));
    let odd = |c: &mut Case, honest: Vec<u8>| -> Vec<u8> {
        let b = hostile(&mut c.rng, &honest, &[0]);
        if b == honest {
            let mut b = b;
            c.rng.mutate(&mut b[..32]);
            b
        } else {
            b
        }
    };
    let mut t = Sym::new(Suite { h: H::Sha3_256, a: A::ChaCha }, m::NAME.as_bytes());
    let (ist, m0) = out0(&s.i_e, &r.pi);
    t.mix_hash(&mr.identity());
    t.mix_hash(&m0);
    if c.index % 2 == 0 {
        // malicious responder sends an odd static key, properly encrypted
        let (ct, ss) = m::encapsulate(&m0, &s.r_ec);
        t.mix_key(&ss);
        let mut m1 = ct;
        m1.extend(t.encrypt_and_hash(&p[0]));
        m1.extend(mre.public());
        t.mix_hash(&mre.public());
        t.mix_key(&mre.dh(&m0));
        let spk = odd(c, mr.public());
        m1.extend(t.encrypt_and_hash(&spk));
        c.count("authenticated odd keys", 1);
        c.count(if m::decodable(&spk) { "decodable" } else { "undecodable" }, 1);
        c.distinct(&spk);
        let x = c.guard("take1_out2", || h.confirm(&cat(&s.i_ec, &s.i_sc), ist, &i.pk, &i.sk, &m1, &p[1], &p[2]))?;
        ensure!(x.is_err(), "hostile/accepted", "a static key other than the dialled one was accepted");
    } else {
        let (rst, m1) = h.respond(&cat(&s.r_e, &s.r_ec), &r.pi, &r.pk, &r.sk, &m0, &p[0]);
        // follow the transcript as the initiator
        t.mix_key(&mie.decapsulate(&m1[..1152]));
        if t.decrypt_and_hash(&m1[1152..1184]).is_none() {
            return fail("honest/rejected", "model rejects message 1");
        }
        t.mix_hash(&m1[1184..2304]);
        t.mix_key(&mie.dh(&m1[1184..1216]));
        if t.decrypt_and_hash(&m1[2304..]).is_none() {
            return fail("honest/rejected", "model rejects message 1");
        }
        t.mix_key(&mie.dh(&mr.elliptic));
        let (ct, ss) = m::encapsulate(&m1[1184..2304], &s.i_ec);
        let mut m2 = ct;
        t.mix_key(&ss);
        m2.extend(t.encrypt_and_hash(&p[1]));
        let (ct, ss) = m::encapsulate(&mr.public(), &s.i_sc);
        m2.extend(ct);
        t.mix_key(&ss);
        let spk = odd(c, mi.public());
        m2.extend(t.encrypt_and_hash(&spk));
        t.mix_key(&mi.dh(&m1[1184..1216]));
        m2.extend(t.encrypt_and_hash(&p[2]));
        c.count("authenticated odd keys", 1);
        c.count(if m::decodable(&spk) { "decodable" } else { "undecodable" }, 1);
        c.distinct(&spk);
        let x = c.guard("take2_out3", || h.accept(&s.r_sc, rst, &r.pk, &r.sk, &m2, &p[3]))?;
        if let Ok((_, _, pk, ..)) = x {
            // accepted only if the elliptic part is really the one whose secret was used
            ensure!(pkb(&pk)[..32] == mi.elliptic, "auth/initiator-without-secret", "a static key whose secret was not used was accepted");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- S07

/// The bits of every source that a run uses: (source, bit).
fn bits() -> Vec<(usize, usize)> {
    let mut v = vec![];
    for f in 0..8 {
        let mut s = seeds(&mut mon::Rng::new(0));
        if field(&mut s, f).1.len() == 96 {
            // elliptic half, without the bits fixed by the curve's scalar format, and lattice half;
            // the last 32 bytes only feed implicit rejection, which an honest run never uses
            v.extend((3..254).chain(256..512).map(|b| (f, b)));
        } else {
            v.extend((0..256).map(|b| (f, b)));
        }
    }
    v
}

/// Every used bit of every source, once per round.
fn s07_every(c: &mut Case) -> Res {
    let all = bits();
    let at = all[(c.index as usize) % all.len()];
    s07_at(c, Some(at))
}

fn s07(c: &mut Case) -> Res {
    s07_at(c, None)
}

fn s07_at(c: &mut Case, at: Option<(usize, usize)>) -> Res {
    let h = ALL[(c.index % 5) as usize];
    let s = seeds(&mut c.rng);
    let p = payloads(&mut c.rng, h);
    let mut base = honest(c, h, &s, &p)?;
    let mut b1 = vec![0u8; 16];
    base.ic.encrypt_ext(b"", &mut b1);
    let mut b2 = vec![0u8; 16];
    base.rc.encrypt_ext(b"", &mut b2);
    ensure!(b1 != b2, "keys/directions", "both directions use the same key");
    let f = at.map_or(((c.index / 5) % 8) as usize, |a| a.0);
    let mut t = s.clone();
    let what = {
        let (name, v) = field(&mut t, f);
        if let Some((_, bit)) = at {
            v[bit / 8] ^= 1 << (bit % 8);
            format!("{}: bit {}", name, bit)
        } else if v.len() == 96 && c.rng.chance(1, 2) {
            // elliptic half, avoiding the bits fixed by the curve's scalar format
            let bit = c.rng.range(3, 253) as usize;
            v[bit / 8] ^= 1 << (bit % 8);
            format!("{}: elliptic bit {}", name, bit)
        } else if v.len() == 96 && f < 2 {
            let bit = c.rng.range(256, 511) as usize;
            v[bit / 8] ^= 1 << (bit % 8);
            format!("{}: lattice bit {}", name, bit)
        } else if v.len() == 96 {
            // the last 32 bytes only feed implicit rejection, which an honest run never uses
            let bit = c.rng.range(256, 511) as usize;
            v[bit / 8] ^= 1 << (bit % 8);
            format!("{}: lattice bit {}", name, bit)
        } else {
            let bit = c.rng.below(256) as usize;
            v[bit / 8] ^= 1 << (bit % 8);
            format!("{}: bit {}", name, bit)
        }
    };
    let mut d = honest(c, h, &t, &p)?;
    let mut x1 = vec![0u8; 16];
    d.ic.encrypt_ext(b"", &mut x1);
    let mut x2 = vec![0u8; 16];
    d.rc.encrypt_ext(b"", &mut x2);
    c.count("seed changes", 1);
    c.distinct(format!("{} {}", what, c.index).as_bytes());
    ensure!(d.hash != base.hash, "keys/hash-independent", "handshake hash does not depend on {}", what);
    ensure!(x1 != b1 && x2 != b2 && x1 != b2, "keys/channel-independent", "channel keys do not depend on {}", what);
    // and the ends of the two runs cannot talk to each other
    let mut a = base.ic.clone();
    let mut b = d.rc.clone();
    ensure!(!works(&mut a, &mut b), "keys/shared", "ends of two different runs can talk ({})", what);
    c.sample(|| what.clone());
    Ok(())
}

fn _types(_: xx::InitiatorsFinal) {}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let mut k = Check::new(&id);
    k.assume("SHA-3, ChaCha20-Poly1305 and Edwards curve arithmetic of the library crates are correct (shared by model and implementation)");
    match id.as_str() {
        "S01" => {
            k.rule("honest handshakes over random, structured and coinciding seeds with five payload size sets; both ends compared with each other and every message, the hash and channel messages with an independent model; non-trivial = distinct completed handshake");
            k.family("run", 12_000, 400_000, s01);
            k.floor("honest handshakes", 3_000);
            k.floor("runs with coinciding randomness", 1_000);
            k.floor("messages compared", 12_000);
        }
        "S02" => {
            k.rule("one message of an honest run altered: every byte of every message of a fixed run, random mutations, and substitution by the corresponding message of another run; non-trivial = distinct alteration actually applied");
            let total = lens().iter().sum::<usize>() as u64;
            k.family("bytes", total, total * 8, s02_bytes);
            let edge = edges().len() as u64 * 8;
            k.family("edges", edge, 4 * edge, s02_edges);
            k.family("random", 6_000, 200_000, s02);
            k.floor("tampered messages", 9_000);
        }
        "S03" => {
            k.rule("impostor scenarios: foreign static key, wrong identity dialled, public key presented without elliptic/lattice/both secrets on either side, messages of concurrent runs mixed; non-trivial = impostor run judged");
            k.family("impostor", 20_000, 500_000, s03);
            k.floor("impostor runs", 5_000);
        }
        "S04" => {
            k.rule("hostile bytes for each message at each stage, including edge-of-format curve encodings and odd keys correctly encrypted by a malicious peer that follows the protocol; non-trivial = distinct hostile message");
            k.family("outsider", 16_000, 500_000, s04);
            k.family("insider", 10_000, 300_000, s04_insider);
            k.floor("hostile message 1", 1_000);
            k.floor("undecodable", 500);
        }
        "S05" => {
            k.rule("generated keys and arbitrary key bytes through compress/decompress, binary and JSON serialisation, truncation and corruption, cloning; non-trivial = distinct encoding judged");
            k.family("keys", 20_000, 600_000, objects::s05);
            k.family("garbage", 30_000, 1_000_000, objects::s05_garbage);
            k.floor("round trips", 10_000);
            k.floor("hostile encodings", 10_000);
            k.floor("contradictory encodings refused", 5_000);
        }
        "S06" => {
            k.rule("identities of generated keys and arbitrary texts/bytes through text and binary forms; non-trivial = distinct text or key judged");
            k.family("identity", 20_000, 500_000, objects::s06);
            k.family("text", 1_500_000, 40_000_000, objects::s06_text);
            k.floor("texts parsed", 2_000);
            k.floor("texts rejected", 10_000);
        }
        "S07" => {
            k.rule("pairs of honest runs that differ in one bit (each bit in turn) of one of the eight sources of randomness; non-trivial = distinct changed source");
            let n = bits().len() as u64;
            k.family("every-bit", n, n * 20, s07_every);
            k.family("seed", 8_000, 250_000, s07);
            k.floor("seed changes", 3_000);
        }
        _ => {
            eprintln!("unknown property {}", id);
            std::process::exit(2);
        }
    }
    k.finish()
}
