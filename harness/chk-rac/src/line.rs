use curve25519_dalek::{edwards::EdwardsPoint, scalar::Scalar};
use generic_array::typenum as tn;
use mon::{ensure, fail, hexs, Case, Res};
use rac::{Array, Concat, Line, LineLike, LineValid};
use secp256k1::{PublicKey, SecretKey};
use serde::{de::DeserializeOwned, Serialize};

type A<N> = Array<N>;
type Deep = Concat<Concat<A<tn::U1>, A<tn::U31>>, Concat<A<tn::U32>, Concat<A<tn::U3>, A<tn::U13>>>>;
type Left = Concat<Concat<Concat<A<tn::U2>, A<tn::U5>>, A<tn::U11>>, A<tn::U64>>;

fn rt<T: Line>(c: &mut Case, name: &str) -> Res {
    use tn::Unsigned;
    let n = T::Length::USIZE;
    let b = c.rng.hostile(n);
    let a = A::<T::Length>::from_slice(&b).clone();
    let v = c.guard("clone_array", || T::clone_array(&a))?;
    let w = c.guard("clone_line", || v.clone_line())?;
    ensure!(w.as_slice() == &b[..], "line/round-trip", "{}: {} read and written as {}", name, hexs(&b), hexs(&w));
    match c.guard("try_clone_array", || T::try_clone_array(&a))? {
        Ok(v) => ensure!(v.clone_line().as_slice() == &b[..], "line/round-trip", "{}: try_clone_array of {}", name, hexs(&b)),
        Err(()) => return fail("line/rejected", format!("{}: {}", name, hexs(&b))),
    }
    let l = LineLike(v).clone();
    ensure!(l.0.clone_line().as_slice() == &b[..], "line/clone", "{}: clone changed {}", name, hexs(&b));
    c.count("lines round-tripped", 1);
    c.distinct(&[name.as_bytes(), &b].concat());
    c.sample(|| format!("{} {}", name, hexs(&b)));
    Ok(())
}

/// positional layout: the parts of a pair are its prefix and suffix, in order
fn layout<T: Line, S: Line>(c: &mut Case) -> Res
where
    T::Length: core::ops::Add<S::Length>,
    <T::Length as core::ops::Add<S::Length>>::Output: generic_array::ArrayLength<u8>,
{
    use tn::Unsigned;
    let (n, m) = (T::Length::USIZE, S::Length::USIZE);
    let b = c.rng.bytes(n + m);
    let t = || T::clone_array(A::<T::Length>::from_slice(&b[..n]));
    let s = || S::clone_array(A::<S::Length>::from_slice(&b[n..]));
    let p = Concat(t(), s());
    ensure!(p.clone_line().as_slice() == &b[..], "line/layout", "pair of {}+{} bytes written in another layout", n, m);
    ensure!(
        p.as_ref_u().clone_line().as_slice() == &b[..n] && p.as_ref_v().clone_line().as_slice() == &b[n..],
        "line/layout",
        "accessors return other parts"
    );
    let q = Concat::<T, S>::clone_array(&p.clone_line());
    ensure!(q.0.clone_line() == p.0.clone_line() && q.1.clone_line() == p.1.clone_line(), "line/layout", "pair read in another layout");
    let q = Concat::<T, S>::try_clone_array(&p.clone_line()).map_err(|()| mon::Fail { sig: "line/rejected".into(), detail: "pair".into() })?;
    ensure!(q.0.clone_line() == p.0.clone_line() && q.1.clone_line() == p.1.clone_line(), "line/layout", "pair read in another layout");
    c.count("layouts compared", 1);
    Ok(())
}

pub fn lines(c: &mut Case) -> Res {
    match c.index % 16 {
        0 => rt::<A<tn::U0>>(c, "0"),
        1 => rt::<A<tn::U1>>(c, "1"),
        2 => rt::<A<tn::U7>>(c, "7"),
        3 => rt::<A<tn::U32>>(c, "32"),
        4 => rt::<A<tn::U33>>(c, "33"),
        5 => rt::<A<tn::U256>>(c, "256"),
        6 => rt::<A<tn::U1000>>(c, "1000"),
        7 => rt::<[u8; 0]>(c, "empty"),
        8 => rt::<Concat<A<tn::U0>, A<tn::U9>>>(c, "0+9"),
        9 => rt::<Concat<A<tn::U9>, [u8; 0]>>(c, "9+0"),
        10 => rt::<Deep>(c, "(1+31)+(32+(3+13))"),
        11 => rt::<Left>(c, "((2+5)+11)+64"),
        12 => layout::<A<tn::U3>, A<tn::U17>>(c),
        13 => layout::<Deep, Left>(c),
        14 => layout::<[u8; 0], A<tn::U16>>(c),
        _ => layout::<Left, [u8; 0]>(c),
    }
}

fn pick_secret(c: &mut Case) -> (Vec<u8>, bool) {
    let b = if c.rng.chance(1, 3) { vec![*c.rng.pick(&[0u8, 0xff]); 32] } else { c.rng.bytes(32) };
    let ok = SecretKey::from_slice(&b).is_ok();
    (b, ok)
}

fn pick_point(c: &mut Case) -> (Vec<u8>, bool) {
    static CTX: std::sync::OnceLock<secp256k1::Secp256k1<secp256k1::All>> = std::sync::OnceLock::new();
    let s = CTX.get_or_init(secp256k1::Secp256k1::new);
    let k = SecretKey::from_slice(&c.rng.bytes(32)).unwrap_or(secp256k1::key::ONE_KEY);
    let mut b = PublicKey::from_secret_key(s, &k).serialize_uncompressed()[1..].to_vec();
    if c.rng.chance(1, 3) {
        c.rng.mutate(&mut b);
    }
    let ok = PublicKey::from_slice(&[&[4u8][..], &b].concat()).is_ok();
    (b, ok)
}

fn pick_ed(c: &mut Case) -> (Vec<u8>, bool) {
    let b = c.rng.bytes(32);
    let ok = curve25519_dalek::edwards::CompressedEdwardsY::from_slice(&b).decompress().is_some();
    (b, ok)
}

/// A pair is accepted exactly if each of its parts is, whatever the order.
pub fn validity(c: &mut Case) -> Res {
    let (a, a_ok) = pick_secret(c);
    let (b, b_ok) = pick_point(c);
    let (e, e_ok) = pick_ed(c);
    let x = [&a[..], &b, &e].concat();
    c.distinct(&x);
    macro_rules! judge {
        ($t:ty, $bytes:expr, $ok:expr) => {{
            let bytes: Vec<u8> = $bytes;
            let r = c.guard("try_clone_array", || <$t>::try_clone_array(Array::from_slice(&bytes)))?;
            match r {
                Ok(v) => {
                    ensure!($ok, "line/invalid-accepted", "{} from {}", stringify!($t), hexs(&bytes));
                    ensure!(v.clone_line().as_slice() == &bytes[..], "line/round-trip", "{} from {}", stringify!($t), hexs(&bytes));
                    c.count("valid pair accepted", 1);
                }
                Err(()) => {
                    ensure!(!$ok, "line/rejected", "{} from {}", stringify!($t), hexs(&bytes));
                    c.count("invalid component rejected", 1);
                }
            }
        }};
    }
    judge!(Concat<SecretKey, PublicKey>, [&a[..], &b].concat(), a_ok && b_ok);
    judge!(Concat<PublicKey, SecretKey>, [&b[..], &a].concat(), a_ok && b_ok);
    judge!(Concat<Concat<EdwardsPoint, SecretKey>, A<tn::U5>>, [&e[..], &a, &[7; 5]].concat(), a_ok && e_ok);
    judge!(Concat<A<tn::U5>, Concat<SecretKey, EdwardsPoint>>, [&[9; 5], &a[..], &e].concat(), a_ok && e_ok);
    let (s, _) = (Scalar::try_clone_array(Array::from_slice(&e)), ());
    ensure!(s.is_ok(), "line/rejected", "25519 scalar");
    Ok(())
}

fn sd<T: Line>(c: &mut Case, name: &str) -> Res {
    use tn::Unsigned;
    let n = T::Length::USIZE;
    let b = c.rng.hostile(n);
    let v = LineLike(T::clone_array(A::<T::Length>::from_slice(&b)));
    sd_value(c, name, &v, |x: &LineLike<T>| x.0.clone_line().to_vec(), &b)
}

fn sd_value<T: Serialize + DeserializeOwned>(c: &mut Case, name: &str, v: &T, bytes: impl Fn(&T) -> Vec<u8>, want: &[u8]) -> Res {
    let bin = match c.guard("serialize", || bincode::serialize(v))? {
        Ok(b) => b,
        Err(e) => return fail("serde/serialize", format!("{}: {}", name, e)),
    };
    match c.guard("deserialize", || bincode::deserialize::<T>(&bin))? {
        Ok(w) => ensure!(bytes(&w) == want, "serde/round-trip", "{}: binary round trip of {}", name, hexs(want)),
        Err(e) => return fail("serde/rejected", format!("{}: {}", name, e)),
    }
    let text = match c.guard("serialize", || serde_json::to_string(v))? {
        Ok(b) => b,
        Err(e) => return fail("serde/serialize", format!("{}: {}", name, e)),
    };
    match c.guard("deserialize", || serde_json::from_str::<T>(&text))? {
        Ok(w) => ensure!(bytes(&w) == want, "serde/round-trip", "{}: text round trip of {}", name, hexs(want)),
        Err(e) => return fail("serde/rejected", format!("{}: {}", name, e)),
    }
    c.count("serde round trips", 2);
    c.distinct(&bin);
    if !want.is_empty() {
        for _ in 0..2 {
            let k = c.rng.below(bin.len() as u64) as usize;
            let r = c.guard("deserialize", || bincode::deserialize::<T>(&bin[..k]))?;
            ensure!(r.is_err(), "serde/truncated", "{}: {} of {} bytes accepted", name, k, bin.len());
            let k = c.rng.below(text.len() as u64) as usize;
            let r = c.guard("deserialize", || serde_json::from_str::<T>(&text[..k]))?;
            ensure!(r.is_err(), "serde/truncated", "{}: {} of {} characters accepted", name, k, text.len());
            c.count("truncations rejected", 2);
        }
        for wrong in ["null", "{}", "[]", "\"x\"", "[-1]", "[256]", "[1.5]"] {
            let r = c.guard("deserialize", || serde_json::from_str::<T>(wrong))?;
            ensure!(r.is_err(), "serde/mistyped", "{}: {} accepted", name, wrong);
        }
    }
    Ok(())
}

pub fn serde_lines(c: &mut Case) -> Res {
    match c.index % 8 {
        0 => sd::<A<tn::U2>>(c, "2"),
        1 => sd::<A<tn::U32>>(c, "32"),
        2 => sd::<A<tn::U300>>(c, "300"),
        3 => sd::<[u8; 0]>(c, "empty"),
        4 => sd::<Deep>(c, "deep"),
        5 => sd::<Left>(c, "left"),
        6 => {
            // the pair's own serialisation, without the wrapper
            let b = c.rng.hostile(14);
            let v = Concat(A::<tn::U5>::clone_from_slice(&b[..5]), A::<tn::U9>::clone_from_slice(&b[5..]));
            sd_value(c, "pair", &v, |x| x.clone_line().to_vec(), &b)
        }
        _ => {
            let b = c.rng.hostile(21);
            let v = Concat(
                Concat(A::<tn::U2>::clone_from_slice(&b[..2]), A::<tn::U3>::clone_from_slice(&b[2..5])),
                A::<tn::U16>::clone_from_slice(&b[5..]),
            );
            sd_value(c, "nested pair", &v, |x| x.clone_line().to_vec(), &b)
        }
    }
}
