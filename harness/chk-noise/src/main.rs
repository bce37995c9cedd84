#[macro_use]
mod dynstate;
mod probe;
mod transport;
mod vectors;
use dynstate::*;
use models::noise::Sym;
use mon::{ensure, fail, hexs, Case, Check, Res, Rng};

/// One step of a handshake script. For messages, `from_a` says which party encrypts.
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Hash(Vec<u8>),
    Secret(Vec<u8>),
    Psk(Vec<u8>),
    Msg { from_a: bool, ext: bool, data: Vec<u8> },
}

fn len(r: &mut Rng) -> usize {
    match r.below(6) {
        0 => r.below(4) as usize,
        1 => {
            // around block sizes, with and without the 16-byte tag
            let b = *r.pick(&[64i64, 72, 128, 136, 144, 256, 272]);
            let k = r.range(1, 2) as i64;
            (b * k + *r.pick(&[-17i64, -16, -15, -1, 0, 1, 2, 16])).max(0) as usize
        }
        2 => r.size(700),
        _ => r.below(80) as usize,
    }
}

pub fn name(r: &mut Rng) -> String {
    let n = match r.below(4) {
        0 => *r.pick(&[0usize, 1, 31, 32, 33, 63, 64, 65, 66, 128, 129]),
        1 => r.below(200) as usize,
        _ => {
            return r
                .pick(&[
                    "Noise_XX_25519+Kyber_ChaChaPoly_SHA256",
                    "Noise_XK_25519_AESGCM_SHA512",
                    "Noise_NNpsk0_25519_ChaChaPoly_SHA256",
                    "Noise_N_448_AESGCM_BLAKE2b",
                ])
                .to_string()
        }
    };
    (0..n).map(|_| (r.range(0x20, 0x7e) as u8) as char).collect()
}

fn secret_len(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => *r.pick(&[0usize, 1, 56, 64, 128, 200]),
        1 | 2 => r.size(140),
        _ => 32,
    }
}

pub fn script(r: &mut Rng) -> Vec<Op> {
    let n = r.range(1, 24) as usize;
    let mut keyed = false;
    let mut msgs = 0;
    let mut out = vec![];
    // some scripts send many messages under one key
    let chatty = r.chance(1, 4);
    for _ in 0..n {
        let k = if chatty && keyed && msgs < MAX_MSGS {
            if r.chance(1, 8) { 0 } else { 3 }
        } else {
            r.below(6)
        };
        match k {
            0 => {
                let l = len(r);
                out.push(Op::Hash(r.hostile(l)));
            }
            1 => {
                let l = secret_len(r);
                out.push(Op::Secret(r.hostile(l)));
                keyed = true;
                msgs = 0;
            }
            2 if r.chance(1, 2) => {
                let l = secret_len(r);
                out.push(Op::Psk(r.hostile(l)));
                keyed = true;
                msgs = 0;
            }
            _ => {
                if keyed && msgs < MAX_MSGS {
                    let l = len(r);
                    out.push(Op::Msg { from_a: r.chance(1, 2), ext: r.chance(1, 3), data: r.hostile(l) });
                    msgs += 1;
                } else {
                    let l = *r.pick(&[32usize, 32, 64]);
                    out.push(Op::Secret(r.hostile(l)));
                    keyed = true;
                    msgs = 0;
                }
            }
        }
    }
    out
}

fn kinds(s: &[Op]) -> String {
    s.iter()
        .map(|o| match o {
            Op::Hash(d) => format!("h{}", d.len()),
            Op::Secret(d) => format!("s{}", d.len()),
            Op::Psk(d) => format!("p{}", d.len()),
            Op::Msg { data, ext, .. } => format!("{}{}", if *ext { "E" } else { "m" }, data.len()),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

/// Apply a non-message step.
pub fn mix(s: Box<dyn State>, op: &Op) -> Box<dyn State> {
    match op {
        Op::Hash(d) => s.mix_hash(d),
        Op::Secret(d) => s.mix_secret(d),
        Op::Psk(d) => s.mix_psk(d),
        Op::Msg { .. } => s,
    }
}

pub fn encrypt(s: Box<dyn State>, ext: bool, data: &[u8]) -> (Box<dyn State>, Vec<u8>) {
    let mut b = data.to_vec();
    if ext {
        let s = s.encrypt_ext(&mut b);
        (s, b)
    } else {
        let (s, t) = s.encrypt(&mut b);
        b.extend_from_slice(&t);
        (s, b)
    }
}

pub fn decrypt(s: Box<dyn State>, ct: &[u8]) -> Option<(Box<dyn State>, Vec<u8>)> {
    let p = ct.len() - 16;
    let mut b = ct[..p].to_vec();
    let s = s.decrypt(&mut b, &ct[p..])?;
    Some((s, b))
}

// ---------------------------------------------------------------- N01

fn conform(c: &mut Case, suite: usize, name: &str, ops: &[Op]) -> Res {
    let mut m = Sym::new(SUITES[suite], name.as_bytes());
    let mut a = c.guard("new", || start(suite, name))?;
    let mut b = start(suite, name);
    ensure!(a.hash() == m.h, "spec/initial-hash", "suite {:?} name {:?}", SUITES[suite], name);
    for (i, op) in ops.iter().enumerate() {
        match op {
            Op::Hash(d) => m.mix_hash(d),
            Op::Secret(d) => m.mix_key(d),
            Op::Psk(d) => m.mix_key_and_hash(d),
            Op::Msg { from_a, ext, data } => {
                let want = m.encrypt_and_hash(data);
                let (s, r) = if *from_a { (a, b) } else { (b, a) };
                let (s, got) = c.guard("encrypt", || encrypt(s, *ext, data))?;
                ensure!(
                    got == want,
                    "spec/ciphertext",
                    "suite {:?} name {:?} script [{}] step {}: got {} want {}",
                    SUITES[suite], name, kinds(ops), i, hexs(&got), hexs(&want)
                );
                let r = match c.guard("decrypt", || decrypt(r, &got))? {
                    Some((r, pt)) => {
                        ensure!(pt == *data, "spec/plaintext", "step {} of [{}]", i, kinds(ops));
                        r
                    }
                    None => {
                        return fail("spec/rejected-honest", format!("step {} of [{}] suite {:?}", i, kinds(ops), SUITES[suite]))
                    }
                };
                c.count("messages compared", 1);
                (a, b) = if *from_a { (s, r) } else { (r, s) };
            }
        }
        if !matches!(op, Op::Msg { .. }) {
            a = c.guard("mix", || mix(a, op))?;
            b = mix(b, op);
        }
        ensure!(
            a.hash() == m.h && b.hash() == m.h,
            "spec/transcript-hash",
            "suite {:?} name {:?} after step {} of [{}]: {} / {} want {}",
            SUITES[suite], name, i, kinds(ops), hexs(&a.hash()), hexs(&b.hash()), hexs(&m.h)
        );
        c.count("hashes compared", 2);
    }
    let (mut ca, ha) = c.guard("finish", || a.finish())?;
    let (cb, hb) = b.finish();
    let mut cb = cb.swap();
    ensure!(ha == m.h && hb == m.h, "spec/final-hash", "suite {:?} [{}]", SUITES[suite], kinds(ops));
    let (k1, k2) = m.split();
    let aead = SUITES[suite].a;
    let (mut n1, mut n2) = (0u64, 0u64);
    for _ in 0..c.rng.range(1, 6) {
        let l = len(&mut c.rng);
        let data = c.rng.hostile(l);
        let al = c.rng.size(40);
        let ad = c.rng.bytes(al);
        let dir = c.rng.chance(1, 2);
        let ext = c.rng.chance(1, 2);
        let (s, r, want) = if dir {
            n1 += 1;
            (&mut ca, &mut cb, aead.seal(&k1, n1 - 1, &ad, &data))
        } else {
            n2 += 1;
            (&mut cb, &mut ca, aead.seal(&k2, n2 - 1, &ad, &data))
        };
        let mut buf = data.clone();
        c.guard("transport-encrypt", || {
            if ext {
                s.encrypt_ext(&ad, &mut buf)
            } else {
                let t = s.encrypt(&ad, &mut buf);
                buf.extend_from_slice(&t);
            }
        })?;
        ensure!(buf == want, "spec/transport-ciphertext", "suite {:?} dir {} [{}]", SUITES[suite], dir, kinds(ops));
        let ok = c.guard("transport-decrypt", || r.decrypt_ext(&ad, &mut buf))?;
        ensure!(ok && buf == data, "spec/transport-plaintext", "suite {:?} dir {}", SUITES[suite], dir);
        c.count("transport messages compared", 1);
    }
    Ok(())
}

fn n01(c: &mut Case) -> Res {
    let suite = (c.index % 6) as usize;
    let name = name(&mut c.rng);
    let ops = script(&mut c.rng);
    conform(c, suite, &name, &ops)?;
    c.distinct(format!("{} {} {:?}", suite, name, ops).as_bytes());
    c.sample(|| format!("suite {:?} name {:?} script [{}]", SUITES[suite], name, kinds(&ops)));
    Ok(())
}

/// Every payload length up to a few hash blocks, in every suite.
fn n01_len(c: &mut Case) -> Res {
    let suite = (c.index % 6) as usize;
    let l = (c.index / 6) as usize;
    let d = c.rng.bytes(l);
    let k = c.rng.bytes(32);
    let ops = vec![
        Op::Hash(d.clone()),
        Op::Secret(k),
        Op::Msg { from_a: true, ext: false, data: d.clone() },
        Op::Msg { from_a: false, ext: true, data: d },
    ];
    conform(c, suite, "Noise", &ops)?;
    c.distinct(format!("len {} {}", suite, l).as_bytes());
    Ok(())
}

/// Far beyond the sizes one meets in tests: nothing may be counted in too few bits.
fn n01_huge(c: &mut Case) -> Res {
    let suite = (c.index % 6) as usize;
    let l = [65_535usize, 65_536, 65_537, 1 << 20, (1 << 20) + 1, (1 << 24) + 17][(c.index / 6) as usize % 6];
    let d = c.rng.bytes(l);
    let k = c.rng.bytes(32);
    let ops = match c.index / 36 % 3 {
        0 => vec![Op::Secret(k), Op::Msg { from_a: true, ext: false, data: d }, Op::Msg { from_a: false, ext: true, data: vec![1; 40] }],
        1 => vec![Op::Secret(d), Op::Msg { from_a: true, ext: true, data: k }],
        _ => vec![Op::Hash(d.clone()), Op::Psk(d), Op::Msg { from_a: false, ext: true, data: k }],
    };
    conform(c, suite, "Noise", &ops)?;
    c.distinct(format!("huge {} {} {}", suite, l, c.index / 36 % 3).as_bytes());
    Ok(())
}

fn n01_name(c: &mut Case) -> Res {
    let suite = (c.index % 6) as usize;
    let l = (c.index / 6) as usize;
    let name: String = (0..l).map(|_| c.rng.range(0x21, 0x7e) as u8 as char).collect();
    let k = c.rng.bytes(32);
    let ops = vec![Op::Secret(k), Op::Msg { from_a: true, ext: false, data: vec![7; 20] }];
    conform(c, suite, &name, &ops)?;
    c.distinct(format!("name {} {}", suite, l).as_bytes());
    Ok(())
}

// ---------------------------------------------------------------- N02

/// Run both parties' scripts, which are equal except for the given divergence, until the first
/// message after it. Returns what the receiving side did.
fn n02(c: &mut Case) -> Res {
    let suite = (c.index % 6) as usize;
    let nm = name(&mut c.rng);
    let mut ops = script(&mut c.rng);
    // guarantee a message at the end so that every divergence is followed by one
    let l = c.rng.range(1, 32) as usize;
    let k = c.rng.bytes(32);
    if c.rng.chance(1, 2) || !keyed_at(&ops, ops.len()) {
        ops.push(Op::Secret(k));
    }
    let from_a = c.rng.chance(1, 2);
    ops.push(Op::Msg { from_a, ext: false, data: vec![0x33; l] });
    let ops_a = ops.clone();
    let mut ops_b = ops.clone();
    let mut name_b = nm.clone();
    // where and how the two views differ
    let mixes: Vec<usize> = (0..ops.len()).filter(|&i| !matches!(ops[i], Op::Msg { .. })).collect();
    let at;
    let what;
    match c.rng.below(6) {
        0 => {
            // different protocol name (names that pad to the same string are the same name)
            let mut v: Vec<u8> = nm.clone().into_bytes();
            if v.is_empty() || c.rng.chance(1, 3) {
                v.push(b'x');
            } else {
                let i = c.rng.below(v.len() as u64) as usize;
                v[i] = if v[i] == b'q' { b'r' } else { b'q' };
            }
            name_b = String::from_utf8(v).unwrap();
            at = 0;
            what = "protocol name".to_string();
        }
        1 => {
            // an extra step on one side only
            let i = c.rng.below(ops.len() as u64) as usize;
            let n = c.rng.size(40);
            let d = c.rng.bytes(n);
            let op = match c.rng.below(3) {
                0 => Op::Hash(d),
                1 => Op::Secret(d),
                _ => Op::Psk(d),
            };
            what = format!("extra {:?} at {}", kinds(&[op.clone()]), i);
            ops_b.insert(i, op);
            at = i;
        }
        2 => {
            let i = *c.rng.pick(&mixes);
            // dropping a keying step may leave one side without a key: keep those as data changes
            if matches!(ops[i], Op::Hash(_)) {
                ops_b.remove(i);
                what = format!("missing mix at {}", i);
            } else {
                alter(&mut c.rng, &mut ops_b[i]);
                what = format!("altered mix at {}", i);
            }
            at = i;
        }
        3 => {
            // same data mixed differently
            let i = *c.rng.pick(&mixes);
            ops_b[i] = match &ops[i] {
                Op::Hash(d) => Op::Psk(d.clone()),
                Op::Secret(d) => Op::Psk(d.clone()),
                Op::Psk(d) => Op::Secret(d.clone()),
                o => o.clone(),
            };
            what = format!("different kind of mix at {}", i);
            at = i;
        }
        _ => {
            let i = *c.rng.pick(&mixes);
            alter(&mut c.rng, &mut ops_b[i]);
            what = format!("altered data at {}", i);
            at = i;
        }
    }
    let a_ops = align(&ops_a, at);
    let b_ops = align(&ops_b, at);
    let mut a = start(suite, &nm);
    let mut b = start(suite, &name_b);
    // up to the divergence the two run in lockstep
    for op in &a_ops.0 {
        (a, b) = step(c, a, b, op, nm == name_b)?;
    }
    // after it each applies its own mixes until its first message
    for op in &a_ops.1 {
        a = mix(a, op);
    }
    for op in &b_ops.1 {
        b = mix(b, op);
    }
    let Some(Op::Msg { from_a, ext, data }) = ops_a.iter().skip(at).find(|o| matches!(o, Op::Msg { .. })) else {
        return fail("harness", "no message");
    };
    if !(a.keyed() && b.keyed()) {
        c.count("skipped (key budget)", 1);
        return Ok(());
    }
    let (s, r) = if *from_a { (a, b) } else { (b, a) };
    let (_, ct) = c.guard("encrypt", || encrypt(s, *ext, data))?;
    let r = c.guard("decrypt", || decrypt(r, &ct))?;
    c.count("diverged messages", 1);
    c.distinct(format!("{} {} {:?} {:?} {}", nm, name_b, ops_a, ops_b, what).as_bytes());
    c.sample(|| format!("suite {:?} [{}], {}: rejected", SUITES[suite], kinds(&ops_a), what));
    ensure!(
        r.is_none(),
        "binding/accepted",
        "suite {:?}: a message was accepted although the two transcripts differ ({}); script [{}] vs [{}]",
        SUITES[suite], what, kinds(&ops_a), kinds(&ops_b)
    );
    Ok(())
}

fn keyed_at(ops: &[Op], n: usize) -> bool {
    let mut k = false;
    let mut msgs = 0;
    for o in &ops[..n] {
        match o {
            Op::Secret(_) | Op::Psk(_) => {
                k = true;
                msgs = 0;
            }
            Op::Msg { .. } => msgs += 1,
            _ => {}
        }
    }
    k && msgs < MAX_MSGS
}

fn alter(r: &mut Rng, op: &mut Op) {
    if let Op::Hash(d) | Op::Secret(d) | Op::Psk(d) = op {
        let old = d.clone();
        match r.below(5) {
            4 if !d.is_empty() => {
                let i = d.len() - 1;
                d[i] ^= 1 << r.below(8);
            }
            0 => {
                let x = r.u8();
                d.push(x)
            }
            1 => {
                d.pop();
            }
            2 => d.push(0),
            _ => {
                if !d.is_empty() {
                    let i = r.below(d.len() as u64) as usize;
                    d[i] ^= 1 << r.below(8);
                }
            }
        }
        if *d == old {
            d.push(1);
        }
    }
}

/// (steps before the divergence, mixes from it to the next message)
fn align(ops: &[Op], at: usize) -> (Vec<Op>, Vec<Op>) {
    let pre = ops[..at].to_vec();
    let mid = ops[at..].iter().take_while(|o| !matches!(o, Op::Msg { .. })).cloned().collect();
    (pre, mid)
}

fn step(c: &mut Case, a: Box<dyn State>, b: Box<dyn State>, op: &Op, same: bool) -> Res<(Box<dyn State>, Box<dyn State>)> {
    if let Op::Msg { from_a, ext, data } = op {
        let (s, r) = if *from_a { (a, b) } else { (b, a) };
        let (s, ct) = c.guard("encrypt", || encrypt(s, *ext, data))?;
        match c.guard("decrypt", || decrypt(r, &ct))? {
            Some((r, pt)) if pt == *data => Ok(if *from_a { (s, r) } else { (r, s) }),
            _ if same => fail("binding/honest-rejected", "equal transcripts, message rejected"),
            _ => fail("harness", "lockstep"),
        }
    } else {
        Ok((mix(a, op), mix(b, op)))
    }
}

/// Tampered handshake messages: every bit of short ones, mutations of longer ones.
fn n02_tamper(c: &mut Case) -> Res {
    let suite = (c.index % 6) as usize;
    let nm = name(&mut c.rng);
    let mut ops = script(&mut c.rng);
    while matches!(ops.last(), Some(Op::Msg { .. })) {
        ops.pop();
    }
    if !keyed_at(&ops, ops.len()) {
        ops.push(Op::Secret(c.rng.bytes(32)));
    }
    let run = |c: &mut Case| -> Res<(Box<dyn State>, Box<dyn State>)> {
        let mut a = start(suite, &nm);
        let mut b = start(suite, &nm);
        for op in &ops {
            (a, b) = step(c, a, b, op, true)?;
        }
        Ok((a, b))
    };
    let l = c.rng.size(24);
    let data = c.rng.bytes(l);
    let (a, _) = run(c)?;
    let (_, ct) = c.guard("encrypt", || encrypt(a, false, &data))?;
    for _ in 0..4 {
        let mut t = ct.clone();
        let what = if c.rng.chance(1, 2) {
            let bit = c.rng.below(t.len() as u64 * 8) as usize;
            t[bit / 8] ^= 1 << (bit % 8);
            format!("bit {}", bit)
        } else {
            c.rng.mutate(&mut t)
        };
        if t == ct || t.len() < 16 {
            continue;
        }
        let (_, b) = run(c)?;
        let r = c.guard("decrypt", || decrypt(b, &t))?;
        c.count("tampered messages", 1);
        c.distinct(&t);
        ensure!(r.is_none(), "binding/tampered-accepted", "suite {:?} {} of {}: accepted", SUITES[suite], what, hexs(&ct));
    }
    Ok(())
}

/// With no further message, a divergence still shows in the handshake hash or the channel keys.
fn n02_final(c: &mut Case) -> Res {
    let suite = (c.index % 6) as usize;
    let nm = name(&mut c.rng);
    let mut ops = script(&mut c.rng);
    while matches!(ops.last(), Some(Op::Msg { .. })) {
        ops.pop();
    }
    let tail: Vec<usize> = (0..ops.len())
        .rev()
        .take_while(|&i| !matches!(ops[i], Op::Msg { .. }))
        .collect();
    if tail.is_empty() {
        return Ok(());
    }
    let at = *c.rng.pick(&tail);
    let mut ops_b = ops.clone();
    alter(&mut c.rng, &mut ops_b[at]);
    let mut a = start(suite, &nm);
    let mut b = start(suite, &nm);
    for op in &ops[..at] {
        (a, b) = step(c, a, b, op, true)?;
    }
    for op in &ops[at..] {
        a = mix(a, op);
    }
    for op in &ops_b[at..] {
        b = mix(b, op);
    }
    let ((mut ca, ha), (cb, hb)) = (a.finish(), b.finish());
    let mut cb = cb.swap();
    let mut buf = b"probe".to_vec();
    ca.encrypt_ext(b"", &mut buf);
    let ok = cb.decrypt_ext(b"", &mut buf);
    c.count("diverged endings", 1);
    c.distinct(format!("{:?} {:?}", ops, ops_b).as_bytes());
    let keyed_diff = !matches!(ops[at], Op::Hash(_));
    ensure!(ha != hb || !ok, "binding/final", "suite {:?} [{}] step {} altered: same hash and working channel", SUITES[suite], kinds(&ops), at);
    ensure!(!keyed_diff || !ok, "binding/final-secret", "suite {:?} [{}] secret at {} altered: channel still works", SUITES[suite], kinds(&ops), at);
    ensure!(keyed_diff || ha != hb, "binding/final-hash", "suite {:?} [{}] data at {} altered: same hash", SUITES[suite], kinds(&ops), at);
    Ok(())
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let mut k = Check::new(&id);
    k.assume("hash and AEAD primitives of the library crates (sha2, sha3, aes-gcm, chacha20poly1305) are correct");
    match id.as_str() {
        "N01" => {
            k.rule("handshake scripts of 1-24 steps (hash/secret/psk mixes, messages from either side) in six cipher suites; every transcript hash, ciphertext and transport message compared with an independent model, plus the published Noise vectors and inputs of many megabytes; non-trivial = distinct script completed");
            k.family("script", 60_000, 3_000_000, n01);
            k.family("lengths", 6 * 700, 6 * 2200, n01_len);
            k.family("names", 6 * 200, 6 * 600, n01_name);
            k.family("huge", 108, 216, n01_huge);
            k.family("vectors", 1, 1, vectors::vectors);
            k.floor("messages compared", 20_000);
            k.floor("vectors checked", 200);
        }
        "N02" => {
            k.rule("two parties whose scripts are equal except for one divergence (name, added, removed, altered or re-kinded step) or a tampered message; non-trivial = distinct diverged pair whose next message was judged");
            k.family("diverge", 100_000, 4_000_000, n02);
            k.family("tamper", 20_000, 800_000, n02_tamper);
            k.family("final", 30_000, 1_000_000, n02_final);
            k.floor("diverged messages", 30_000);
            k.floor("tampered messages", 20_000);
            k.floor("diverged endings", 5_000);
        }
        "N03" => {
            k.rule("two ends of a channel under a scheduler that delivers in order, drops, replays, reorders, reflects, tampers, truncates and lies about associated data; accepted iff it is exactly the next message of that direction; non-trivial = distinct delivery history");
            k.family("channel", 60_000, 1_500_000, transport::n03);
            k.family("burst", 1_500, 60_000, transport::n03_burst);
            k.floor("both ends swapped", 500);
            k.floor("channels with key rotation", 10_000);
            k.family("long", 2, 12, transport::n03_long);
            k.floor("in-order deliveries", 50_000);
            k.floor("hostile deliveries", 50_000);
        }
        "N04" => {
            k.rule("every (key, nonce) the implementation hands to the AEAD is recorded by an instrumented AEAD; repeats, gaps and early, late or missing key rotations are reported; non-trivial = distinct script of operations");
            k.family("record", 20_000, 600_000, probe::n04);
            k.family("rotation", 4_000, 100_000, probe::n04_rotation);
            k.family("rotation-wide", 24, 240, probe::n04_rotation_wide);
            k.family("chain", 4, 16, probe::n04_chain);
            k.family("past-32-bits", 4, 4, probe::n04_long);
            k.floor("encryptions recorded", 100_000);
            k.floor("rotations seen", 5_000);
        }
        "N05" => {
            k.rule("length-framed channel buffers of every short length, random longer ones and some of many megabytes; non-trivial = distinct buffer judged");
            k.family("short", 6 * 64, 6 * 256, transport::n05_short);
            k.family("frames", 60_000, 2_000_000, transport::n05);
            k.family("huge", 72, 288, transport::n05_huge);
            k.floor("malformed buffers", 10_000);
        }
        _ => {
            eprintln!("unknown property {}", id);
            std::process::exit(2);
        }
    }
    k.finish()
}
