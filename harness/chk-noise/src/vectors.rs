//! The published Noise test vectors, replayed through the real symmetric state and the model.
use crate::dynstate::*;
use crate::{decrypt, encrypt};
use curve25519_dalek::montgomery::MontgomeryPoint;
use models::noise::{Sym, A, H};
use mon::{ensure, fail, Case, Res};
use serde_json::Value;

fn pattern(p: &str) -> Option<(&'static str, Vec<Vec<&'static str>>)> {
    let s = match p {
        "N" => "<s / e es",
        "K" => "<>s / e es ss",
        "X" => "<s / e es s ss",
        "NN" => "- / e / e ee",
        "KN" => ">s / e / e ee se",
        "NK" => "<s / e es / e ee",
        "KK" => "<>s / e es ss / e ee se",
        "NX" => "- / e / e ee s es",
        "KX" => ">s / e / e ee se s es",
        "XN" => "- / e / e ee / s se",
        "IN" => "- / e s / e ee se",
        "XK" => "<s / e es / e ee / s se",
        "IK" => "<s / e es s ss / e ee se",
        "XX" => "- / e / e ee s es / s se",
        "IX" => "- / e s / e ee se s es",
        "NK1" => "<s / e / e ee es",
        "NX1" => "- / e / e ee s / es",
        "X1N" => "- / e / e ee / s / se",
        "X1K" => "<s / e es / e ee / s / se",
        "XK1" => "<s / e / e ee es / s se",
        "X1K1" => "<s / e / e ee es / s / se",
        "X1X" => "- / e / e ee s es / s / se",
        "XX1" => "- / e / e ee s / es s se",
        "X1X1" => "- / e / e ee s / es s / se",
        "K1N" => ">s / e / e ee / se",
        "K1K" => "<>s / e es / e ee / se",
        "KK1" => "<>s / e / e ee se es",
        "K1K1" => "<>s / e / e ee es / se",
        "K1X" => ">s / e / e ee s es / se",
        "KX1" => ">s / e / e ee se s / es",
        "K1X1" => ">s / e / e ee s / se es",
        "I1N" => "- / e s / e ee / se",
        "I1K" => "<s / e es s / e ee / se",
        "IK1" => "<s / e s / e ee se es",
        "I1K1" => "<s / e s / e ee es / se",
        "I1X" => "- / e s / e ee s es / se",
        "IX1" => "- / e s / e ee se s / es",
        "I1X1" => "- / e s / e ee s / se es",
        _ => return None,
    };
    let mut it = s.split(" / ");
    let pre = it.next().unwrap();
    Some((pre, it.map(|m| m.split(' ').collect()).collect()))
}

struct Party {
    st: Option<Box<dyn State>>,
    keyed: bool,
}
impl Party {
    fn with(&mut self, f: impl FnOnce(Box<dyn State>) -> Box<dyn State>) {
        let s = self.st.take().unwrap();
        self.st = Some(f(s));
    }
}

fn dh(sk: &[u8; 32], pk: &[u8]) -> Vec<u8> {
    let mut k = *sk;
    k[0] &= 248;
    k[31] &= 127;
    k[31] |= 64;
    let p = MontgomeryPoint(pk.try_into().unwrap());
    (p * curve25519_dalek::scalar::Scalar::from_bits(k)).to_bytes().to_vec()
}
fn public(sk: &[u8; 32]) -> Vec<u8> {
    let mut b = [0; 32];
    b[0] = 9;
    dh(sk, &b)
}

fn key(v: &Value, k: &str) -> Option<[u8; 32]> {
    let s = v.get(k)?.as_str()?;
    hex::decode(s).ok()?.try_into().ok()
}
fn bytes(v: &Value, k: &str) -> Vec<u8> {
    hex::decode(v.get(k).and_then(|x| x.as_str()).unwrap_or("")).unwrap()
}

pub fn vectors(c: &mut Case) -> Res {
    let text = std::fs::read_to_string(concat!(env!("CARGO_MANIFEST_DIR"), "/vectors.json"))
        .map_err(|e| mon::Fail { sig: "harness".into(), detail: e.to_string() })?;
    let all: Value = serde_json::from_str(&text).unwrap();
    for v in all["vectors"].as_array().unwrap() {
        let name = v["protocol_name"].as_str().unwrap();
        let parts: Vec<&str> = name.split('_').collect();
        if parts[2] != "25519" {
            continue;
        }
        let (h, a) = match (parts[4], parts[3]) {
            ("SHA256", "ChaChaPoly") => (H::Sha256, A::ChaCha),
            ("SHA512", "AESGCM") => (H::Sha512, A::Aes256),
            ("SHA512", "ChaChaPoly") => (H::Sha512, A::ChaCha),
            ("SHA256", "AESGCM") => (H::Sha256, A::Aes256),
            _ => continue,
        };
        let suite = SUITES.iter().position(|s| s.h == h && s.a == a).unwrap();
        c.count("vectors in a supported suite", 1);
        one(c, v, name, parts[1], suite)?;
        c.count("vectors checked", 1);
        c.distinct(name.as_bytes());
    }
    Ok(())
}

fn one(c: &mut Case, v: &Value, name: &str, pat: &str, suite: usize) -> Res {
    let (base, psks) = match pat.split_once("psk") {
        Some((b, r)) => (b, r.split("+psk").map(|x| x.parse::<usize>().unwrap()).collect::<Vec<_>>()),
        None => (pat, vec![]),
    };
    let Some((pre, msgs)) = pattern(base) else {
        return fail("harness", format!("pattern {}", base));
    };
    let has_psk = !psks.is_empty();
    let psk_bytes: Vec<Vec<u8>> = v
        .get("init_psks")
        .and_then(|x| x.as_array())
        .map(|a| a.iter().map(|x| hex::decode(x.as_str().unwrap()).unwrap()).collect())
        .unwrap_or_default();
    let ie = key(v, "init_ephemeral").unwrap();
    let re = key(v, "resp_ephemeral");
    let is = key(v, "init_static");
    let rs = key(v, "resp_static");
    let rs_pub = key(v, "init_remote_static").map(|x| x.to_vec()).or(rs.as_ref().map(public));
    let mut m = Sym::new(SUITES[suite], name.as_bytes());
    let mut p = [
        Party { st: Some(start(suite, name)), keyed: false },
        Party { st: Some(start(suite, name)), keyed: false },
    ];
    macro_rules! hash {
        ($d:expr) => {{
            let d: &[u8] = &$d;
            m.mix_hash(d);
            for x in &mut p {
                x.with(|s| s.mix_hash(d));
            }
        }};
    }
    macro_rules! secret {
        ($d:expr) => {{
            let d: &[u8] = &$d;
            m.mix_key(d);
            for x in &mut p {
                x.with(|s| s.mix_secret(d));
                x.keyed = true;
            }
        }};
    }
    macro_rules! psk {
        ($d:expr) => {{
            let d: &[u8] = &$d;
            m.mix_key_and_hash(d);
            for x in &mut p {
                x.with(|s| s.mix_psk(d));
                x.keyed = true;
            }
        }};
    }
    hash!(bytes(v, "init_prologue"));
    if pre.contains('>') {
        hash!(public(&is.unwrap()));
    }
    if pre.contains('<') {
        hash!(rs_pub.clone().unwrap());
    }
    let mut psk_i = 0;
    let list = v["messages"].as_array().unwrap();
    for (i, toks) in msgs.iter().enumerate() {
        let w = i % 2;
        let mut wire = vec![];
        if i == 0 && psks.contains(&0) {
            psk!(psk_bytes[psk_i]);
            psk_i += 1;
        }
        // part that is either encrypted (keyed) or sent in the clear and hashed
        macro_rules! part {
            ($d:expr) => {{
                let d: Vec<u8> = $d.to_vec();
                if p[0].keyed {
                    let want = m.encrypt_and_hash(&d);
                    let s = p[w].st.take().unwrap();
                    let (s, got) = c.guard("encrypt", || encrypt(s, i % 2 == 0, &d))?;
                    ensure!(got == want, "vector/ciphertext", "{} message {}", name, i);
                    p[w].st = Some(s);
                    let r = p[1 - w].st.take().unwrap();
                    let Some((r, pt)) = c.guard("decrypt", || decrypt(r, &got))? else {
                        return fail("vector/rejected", format!("{} message {}", name, i));
                    };
                    ensure!(pt == d, "vector/plaintext", "{} message {}", name, i);
                    p[1 - w].st = Some(r);
                    wire.extend(got);
                } else {
                    wire.extend_from_slice(&d);
                    hash!(d);
                }
            }};
        }
        for t in toks {
            match *t {
                "e" => {
                    let e = public(if w == 0 { &ie } else { re.as_ref().unwrap() });
                    wire.extend_from_slice(&e);
                    hash!(e);
                    if has_psk {
                        secret!(e);
                    }
                }
                "s" => {
                    let s = public(if w == 0 { is.as_ref().unwrap() } else { rs.as_ref().unwrap() });
                    part!(s);
                }
                "ee" => secret!(dh(&ie, &public(&re.unwrap()))),
                "es" => secret!(dh(&ie, rs_pub.as_ref().unwrap())),
                "se" => secret!(dh(&is.unwrap(), &public(&re.unwrap()))),
                "ss" => secret!(dh(&is.unwrap(), rs_pub.as_ref().unwrap())),
                _ => unreachable!(),
            }
        }
        if psks.contains(&(i + 1)) {
            psk!(psk_bytes[psk_i]);
            psk_i += 1;
        }
        part!(bytes(&list[i], "payload"));
        ensure!(wire == bytes(&list[i], "ciphertext"), "vector/ciphertext", "{} message {} differs from the published vector", name, i);
        c.count("vector messages", 1);
    }
    let want = bytes(v, "handshake_hash");
    let [a, b] = p;
    let ((mut ca, ha), (cb, hb)) = (a.st.unwrap().finish(), b.st.unwrap().finish());
    let mut cb = cb.swap();
    ensure!(ha == want && hb == want, "vector/handshake-hash", "{}", name);
    let one_way = msgs.len() == 1;
    for (i, x) in list.iter().enumerate().skip(msgs.len()) {
        let w = if one_way { 0 } else { i % 2 };
        let pt = bytes(x, "payload");
        let mut buf = pt.clone();
        let (s, r) = if w == 0 { (&mut ca, &mut cb) } else { (&mut cb, &mut ca) };
        s.encrypt_ext(b"", &mut buf);
        ensure!(buf == bytes(x, "ciphertext"), "vector/transport", "{} message {} differs from the published vector", name, i);
        let ok = c.guard("receive", || r.decrypt_ext(b"", &mut buf))?;
        ensure!(ok && buf == pt, "vector/transport-rejected", "{} message {}", name, i);
        c.count("vector messages", 1);
    }
    Ok(())
}
