use crate::dynstate::*;
use crate::{mix, name, script, Op};
use mon::{ensure, hexs, Case, Res};

/// A channel over a real handshake state; returns (A's end, B's end).
fn channel(c: &mut Case) -> Res<(Box<dyn Transport>, Box<dyn Transport>)> {
    let suite = (c.index % 6) as usize;
    let nm = name(&mut c.rng);
    let mut ops = script(&mut c.rng);
    ops.retain(|o| !matches!(o, Op::Msg { .. }));
    ops.push(Op::Secret(c.rng.bytes(32)));
    let mut a = start(suite, &nm);
    let mut b = start(suite, &nm);
    for op in &ops {
        a = mix(a, op);
        b = mix(b, op);
    }
    let (a, b) = if c.rng.chance(1, 2) {
        (a.finish().0, b.finish().0)
    } else {
        let kind = c.rng.below(ROTATIONS.len() as u64) as usize;
        c.count("channels with key rotation", 1);
        (a.finish_rotating(kind), b.finish_rotating(kind))
    };
    // either party may be the one that swaps
    if c.rng.chance(1, 2) {
        Ok((a, b.swap()))
    } else {
        Ok((a.swap(), b))
    }
}

struct Sent {
    ad: Vec<u8>,
    pt: Vec<u8>,
    ct: Vec<u8>,
}

fn send(c: &mut Case, t: &mut Box<dyn Transport>, ad: &[u8], pt: &[u8]) -> Res<Vec<u8>> {
    let how = c.rng.below(3);
    c.guard("send", || {
        let mut b = pt.to_vec();
        match how {
            0 => t.encrypt_ext(ad, &mut b),
            1 => {
                let tag = t.encrypt(ad, &mut b);
                b.extend_from_slice(&tag);
            }
            _ => {
                let tag = t.send_half(ad, &mut b);
                b.extend_from_slice(&tag);
            }
        }
        b
    })
}

/// (accepted, buffer left behind)
fn receive(c: &mut Case, t: &mut Box<dyn Transport>, ad: &[u8], ct: &[u8]) -> Res<(bool, Vec<u8>)> {
    let how = if ct.len() < 16 { 0 } else { c.rng.below(3) };
    c.guard("receive", || {
        if how == 0 {
            let mut b = ct.to_vec();
            let ok = t.decrypt_ext(ad, &mut b);
            (ok, b)
        } else {
            let p = ct.len() - 16;
            let mut b = ct[..p].to_vec();
            let ok = if how == 1 {
                t.decrypt(ad, &mut b, &ct[p..])
            } else {
                t.receive_half(ad, &mut b, &ct[p..])
            };
            (ok, b)
        }
    })
}

pub fn n03(c: &mut Case) -> Res {
    let (a, b) = channel(c)?;
    let mut ends = [a, b];
    let mut sent: [Vec<Sent>; 2] = [vec![], vec![]];
    let mut next = [0usize, 0];
    let mut history = String::new();
    for step in 0..c.rng.range(10, 60) {
        let d = c.rng.below(2) as usize;
        let k = c.rng.below(12);
        if k < 4 {
            let l = match c.rng.below(4) {
                0 => 0,
                1 => c.rng.size(300),
                _ => 8 + c.rng.below(40) as usize,
            };
            let pt = c.rng.hostile(l);
            let al = if c.rng.chance(1, 2) {
                0
            } else if c.rng.chance(1, 60) {
                // beyond any width of a length field
                65_500 + c.rng.below(200) as usize
            } else {
                c.rng.size(30)
            };
            let ad = c.rng.bytes(al);
            let ct = send(c, &mut ends[d], &ad, &pt)?;
            ensure!(ct.len() == pt.len() + 16, "channel/length", "{} -> {}", pt.len(), ct.len());
            sent[d].push(Sent { ad, pt, ct });
            history.push_str(&format!("S{} ", d));
            continue;
        }
        if k == 5 && c.rng.chance(1, 5) && next[0] == sent[0].len() && next[1] == sent[1].len() && !sent[0].is_empty() {
            // both parties exchange their halves while nothing is on its way: the stream goes on,
            // what each has sent so far continues what the other had sent
            let spare = [ends[0].dup(), ends[1].dup()];
            let [a, b] = std::mem::replace(&mut ends, spare);
            ends = [a.swap(), b.swap()];
            sent.swap(0, 1);
            next.swap(0, 1);
            c.count("both ends swapped", 1);
            history.push_str("X ");
            continue;
        }
        if k == 4 && c.rng.chance(1, 4) {
            // carry on with a copy of one end, or with its halves swapped back and forth
            let spare = ends[d].dup();
            let e = std::mem::replace(&mut ends[d], spare);
            ends[d] = if c.rng.chance(1, 2) { e.dup() } else { e.swap().swap() };
            history.push_str(&format!("C{} ", d));
            continue;
        }
        let n = next[d];
        let r = 1 - d;
        if k < 7 {
            if n < sent[d].len() {
                let (ad, ct) = (sent[d][n].ad.clone(), sent[d][n].ct.clone());
                let (ok, buf) = receive(c, &mut ends[r], &ad, &ct)?;
                history.push_str(&format!("D{} ", d));
                ensure!(
                    ok && buf == sent[d][n].pt,
                    "channel/in-order-rejected",
                    "step {}: message {} of direction {} delivered in order: accepted {} plaintext ok {}; history {}",
                    step, n, d, ok, buf == sent[d][n].pt, history
                );
                next[d] += 1;
                c.count("in-order deliveries", 1);
            }
            continue;
        }
        // hostile deliveries to end r (which expects message n of direction d)
        let (what, ad, ct, pt): (&'static str, Vec<u8>, Vec<u8>, Vec<u8>) = match k {
            7 if n > 0 => {
                let m = &sent[d][if c.rng.chance(1, 2) { n - 1 } else { c.rng.below(n as u64) as usize }];
                ("replay", m.ad.clone(), m.ct.clone(), m.pt.clone())
            }
            8 if n + 1 < sent[d].len() => {
                let i = if c.rng.chance(1, 2) { n + 1 } else { c.rng.range(n as u64 + 1, sent[d].len() as u64 - 1) as usize };
                let m = &sent[d][i];
                ("out of order", m.ad.clone(), m.ct.clone(), m.pt.clone())
            }
            9 if !sent[r].is_empty() => {
                let i = if next[d] < sent[r].len() && c.rng.chance(1, 2) { next[d] } else { c.rng.below(sent[r].len() as u64) as usize };
                let m = &sent[r][i];
                ("reflected", m.ad.clone(), m.ct.clone(), m.pt.clone())
            }
            10 if n < sent[d].len() => {
                let m = &sent[d][n];
                let mut ad = m.ad.clone();
                match c.rng.below(4) {
                    0 => ad.push(c.rng.u8()),
                    1 if !ad.is_empty() => {
                        let l = ad.len();
                        ad[l - 1] ^= 1 << c.rng.below(8);
                    }
                    2 if !ad.is_empty() => {
                        c.rng.mutate(&mut ad);
                    }
                    _ => {
                        if ad.is_empty() {
                            ad.push(0)
                        } else {
                            ad.pop();
                        }
                    }
                }
                ("wrong associated data", ad, m.ct.clone(), m.pt.clone())
            }
            _ if n < sent[d].len() => {
                let (ad, mut ct, pt) = { let m = &sent[d][n]; (m.ad.clone(), m.ct.clone(), m.pt.clone()) };
                match c.rng.below(5) {
                    0 => {
                        let cut = 1 + c.rng.below(ct.len() as u64) as usize;
                        ct.truncate(ct.len() - cut);
                        ("truncated", ad, ct, pt)
                    }
                    1 => {
                        ct.push(c.rng.u8());
                        ("extended", ad, ct, pt)
                    }
                    2 if n > 0 => {
                        let p = sent[d][n - 1].ct.clone();
                        let l = ct.len();
                        ct[l - 16..].copy_from_slice(&p[p.len() - 16..]);
                        ("spliced tag", ad, ct, pt)
                    }
                    _ => {
                        c.rng.mutate(&mut ct);
                        ("tampered", ad, ct, pt)
                    }
                }
            }
            _ => {
                let l = c.rng.below(60) as usize;
                ("garbage", vec![], c.rng.hostile(l), vec![])
            }
        };
        let (ok, buf) = receive(c, &mut ends[r], &ad, &ct)?;
        history.push_str(&format!("{}{} ", &what[..2], d));
        ensure!(
            !ok,
            "channel/hostile-accepted",
            "step {}: {} message accepted by end {} (expecting number {}); history {}",
            step, what, r, n, history
        );
        ensure!(
            pt.len() < 8 || buf != pt || ct.starts_with(&pt),
            "channel/plaintext-released",
            "step {}: {} message rejected but its plaintext {} was left in the buffer",
            step, what, hexs(&pt)
        );
        c.count("hostile deliveries", 1);
        c.count(
            match what {
                "replay" => "hostile:replay",
                "out of order" => "hostile:reorder",
                "reflected" => "hostile:reflect",
                "wrong associated data" => "hostile:associated data",
                "truncated" | "extended" => "hostile:length",
                _ => "hostile:tamper",
            },
            1,
        );
    }
    // whatever happened, everything still pending goes through in order
    for d in 0..2 {
        while next[d] < sent[d].len() {
            let n = next[d];
            let (ad, ct) = (sent[d][n].ad.clone(), sent[d][n].ct.clone());
            let (ok, buf) = receive(c, &mut ends[1 - d], &ad, &ct)?;
            ensure!(
                ok && buf == sent[d][n].pt,
                "channel/stuck",
                "message {} of direction {} no longer accepted after history {}",
                n, d, history
            );
            next[d] += 1;
            c.count("in-order deliveries", 1);
        }
    }
    c.distinct(history.as_bytes());
    c.sample(|| history.clone());
    Ok(())
}

/// One end runs far ahead of the other, which meanwhile sees nothing but hostile deliveries, in
/// numbers no random walk reaches; then everything is delivered in order.
pub fn n03_burst(c: &mut Case) -> Res {
    let (mut a, mut b) = channel(c)?;
    let mut sent: Vec<Sent> = vec![];
    let mut next = 0usize;
    let mut hist = String::new();
    for round in 0..c.rng.range(1, 3) {
        for _ in 0..1 + c.rng.size(300).min(600) {
            let l = c.rng.below(30) as usize;
            let pt = c.rng.hostile(l);
            let ad = if c.rng.chance(1, 2) { vec![] } else { c.rng.bytes(3) };
            let ct = send(c, &mut a, &ad, &pt)?;
            sent.push(Sent { ad, pt, ct });
        }
        let bad = *c.rng.pick(&[15u64, 16, 17, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4097]);
        let kind = c.rng.below(5);
        hist.push_str(&format!("{} sent, {} bad of kind {}; ", sent.len(), bad, kind));
        let n0 = c.rng.below(17) as usize;
        for i in 0..bad {
            let k = if kind == 4 { c.rng.below(4) } else { kind };
            let (ad, ct) = match k {
                // the latest messages first, as a reordering network would
                0 if sent.len() > next + 1 => {
                    let m = &sent[sent.len() - 1 - (i as usize % (sent.len() - next - 1))];
                    (m.ad.clone(), m.ct.clone())
                }
                1 if next > 0 => {
                    let m = &sent[(i as usize) % next];
                    (m.ad.clone(), m.ct.clone())
                }
                2 if next < sent.len() => {
                    let m = &sent[next];
                    let mut ct = m.ct.clone();
                    let p = c.rng.below(ct.len() as u64) as usize;
                    ct[p] ^= 1 << c.rng.below(8);
                    (m.ad.clone(), ct)
                }
                _ => (vec![], c.rng.bytes(n0 + 16)),
            };
            let (ok, _) = receive(c, &mut b, &ad, &ct)?;
            ensure!(!ok, "channel/hostile-accepted", "bad delivery {} of kind {} accepted; {}", i, k, hist);
        }
        c.count("hostile deliveries", bad);
        c.count("longest runs of hostile deliveries", 1);
        let upto = if round % 2 == 0 { sent.len() } else { next + c.rng.below((sent.len() - next) as u64 + 1) as usize };
        while next < upto {
            let m = &sent[next];
            let (ad, ct, pt) = (m.ad.clone(), m.ct.clone(), m.pt.clone());
            let (ok, buf) = receive(c, &mut b, &ad, &ct)?;
            ensure!(ok && buf == pt, "channel/stuck", "message {} no longer accepted; {}", next, hist);
            next += 1;
            c.count("in-order deliveries", 1);
        }
    }
    c.distinct(format!("{} {}", hist, c.index).as_bytes());
    c.sample(|| hist.clone());
    Ok(())
}

/// Long runs in one direction with occasional replays, past the 16-bit boundary.
pub fn n03_long(c: &mut Case) -> Res {
    let (mut a, mut b) = channel(c)?;
    let total = 70_000u64 + c.rng.below(2000);
    let mut prev: Vec<u8> = vec![];
    let mut early: Vec<Vec<u8>> = vec![];
    for i in 0..total {
        let mut buf = i.to_le_bytes().to_vec();
        a.encrypt_ext(b"", &mut buf);
        if i < 600 {
            early.push(buf.clone());
        }
        if i % 97 == 0 && !prev.is_empty() {
            let mut p = prev.clone();
            ensure!(!b.decrypt_ext(b"", &mut p), "channel/hostile-accepted", "replay of message {} accepted", i - 1);
            c.count("hostile deliveries", 1);
        }
        // the counter must not come back to a value it had before
        for w in [256u64, 65536] {
            if i >= w && ((i - w) as usize) < early.len() {
                let mut p = early[(i - w) as usize].clone();
                ensure!(!b.decrypt_ext(b"", &mut p), "channel/hostile-accepted", "message {} accepted again as number {}", i - w, i);
                c.count("hostile deliveries", 1);
            }
        }
        prev = buf.clone();
        let ok = b.decrypt_ext(b"", &mut buf);
        ensure!(ok && buf == i.to_le_bytes(), "channel/in-order-rejected", "message {} of a long run", i);
        c.count("in-order deliveries", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- N05

fn one(c: &mut Case, a: &mut Box<dyn Transport>, b: &mut Box<dyn Transport>, bad: Vec<u8>, ad: &[u8]) -> Res {
    let mut buf = bad.clone();
    let ok = c.guard("decrypt-malformed", || b.decrypt_ext(ad, &mut buf))?;
    ensure!(!ok, "frame/accepted", "malformed buffer of {} bytes accepted: {}", bad.len(), hexs(&bad));
    c.count("malformed buffers", 1);
    c.distinct(&bad);
    // the channel is still usable
    let n = c.rng.below(50) as usize;
    let pt = c.rng.hostile(n);
    let mut buf = pt.clone();
    c.guard("frame", || a.encrypt_ext(ad, &mut buf))?;
    ensure!(buf.len() == pt.len() + 16, "frame/length", "{} -> {}", pt.len(), buf.len());
    let ok = c.guard("unframe", || b.decrypt_ext(ad, &mut buf))?;
    ensure!(ok && buf == pt, "frame/honest", "honest {}-byte message after a malformed one: accepted {}, {} bytes", pt.len(), ok, buf.len());
    c.count("honest frames", 1);
    Ok(())
}

pub fn n05_short(c: &mut Case) -> Res {
    let (mut a, mut b) = channel(c)?;
    let l = ((c.index / 6) % 48) as usize;
    let bad = c.rng.hostile(l);
    c.sample(|| format!("{} bytes: {}", l, hexs(&bad)));
    one(c, &mut a, &mut b, bad, b"")
}

pub fn n05(c: &mut Case) -> Res {
    let (mut a, mut b) = channel(c)?;
    let n = c.rng.size(80);
    let pt = c.rng.hostile(n);
    let al = c.rng.size(20);
    let ad = c.rng.bytes(al);
    // a twin produces an honest frame to be damaged
    let mut buf = pt.clone();
    a.dup().encrypt_ext(&ad, &mut buf);
    let bad = match c.rng.below(4) {
        0 => {
            let k = c.rng.below(buf.len() as u64) as usize;
            buf[..k].to_vec()
        }
        1 => {
            let k = 1 + c.rng.below(buf.len() as u64) as usize;
            buf[k..].to_vec()
        }
        2 => {
            let k = c.rng.range(1, 20) as usize;
            let mut v = buf.clone();
            v.extend(c.rng.bytes(k));
            v
        }
        _ => {
            let mut v = buf.clone();
            c.rng.mutate(&mut v);
            v
        }
    };
    if bad == buf {
        return Ok(());
    }
    for _ in 0..2 {
        one(c, &mut a, &mut b, bad.clone(), &ad)?;
    }
    Ok(())
}

/// Frames and associated data far beyond the usual sizes.
pub fn n05_huge(c: &mut Case) -> Res {
    let (mut a, mut b) = channel(c)?;
    let l = [65_519usize, 65_520, 65_535, 65_536, 65_537, 1 << 20, (1 << 20) + 1, (1 << 24) - 16, (1 << 24) + 1][(c.index / 6) as usize % 9];
    let pt = c.rng.bytes(l);
    let al = *c.rng.pick(&[0usize, 1, 255, 256, 65_535, 65_536, 1 << 20]);
    let ad = c.rng.bytes(al);
    let mut buf = pt.clone();
    c.guard("frame", || a.encrypt_ext(&ad, &mut buf))?;
    ensure!(buf.len() == l + 16, "frame/length", "{} -> {}", l, buf.len());
    let honest = buf.clone();
    for k in 0..3 {
        let mut bad = honest.clone();
        match k {
            0 => {
                bad.pop();
            }
            1 => bad.push(0),
            _ => {
                c.rng.mutate(&mut bad);
            }
        }
        if bad == honest {
            continue;
        }
        let mut x = bad;
        let ok = c.guard("decrypt-malformed", || b.decrypt_ext(&ad, &mut x))?;
        ensure!(!ok, "frame/accepted", "malformed frame of {} bytes accepted", x.len());
        c.count("malformed buffers", 1);
    }
    let ok = c.guard("unframe", || b.decrypt_ext(&ad, &mut buf))?;
    ensure!(ok && buf == pt, "frame/honest", "honest {}-byte message: accepted {}, {} bytes", l, ok, buf.len());
    c.count("honest frames", 1);
    c.distinct(format!("{} {} {}", c.index % 6, l, al).as_bytes());
    c.sample(|| format!("{} bytes with {} bytes of associated data", l, al));
    Ok(())
}
