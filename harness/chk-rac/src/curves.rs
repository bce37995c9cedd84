use curve25519_dalek::{edwards::EdwardsPoint, montgomery::MontgomeryPoint, scalar::Scalar as S25519};
use models::curves as m;
use mon::{ensure, fail, hexs, Case, Res};
use rac::{Array, Curve, LineValid, Scalar};
use secp256k1::{PublicKey, SecretKey, Signature as Ecdsa};

pub fn clamp(b: &[u8]) -> [u8; 32] {
    let mut v = [0; 32];
    v.copy_from_slice(b);
    v[0] &= 248;
    v[31] = v[31] & 127 | 64;
    v
}

pub fn arr<N: generic_array::ArrayLength<u8>>(b: &[u8]) -> Array<N> {
    Array::from_slice(b).clone()
}

/// A scalar and the integer it stands for; some are results of arithmetic.
fn scalar_25519(c: &mut Case) -> Res<(S25519, m::U)> {
    let read = |c: &mut Case| -> Res<(S25519, m::U)> {
        let b = c.rng.hostile(32);
        let s = c.guard("scalar", || S25519::try_clone_array(&arr(&b)))?;
        let Ok(s) = s else {
            return fail("scalar/rejected", hexs(&b));
        };
        ensure!(s.clone_line()[..] == clamp(&b)[..], "scalar/clamp", "{} read as {}", hexs(&b), hexs(&s.clone_line()));
        Ok((s, m::from_le(&clamp(&b))))
    };
    let (a, ai) = read(c)?;
    if c.rng.chance(1, 2) {
        return Ok((a, ai));
    }
    let (b, bi) = read(c)?;
    let f = &m::S25519;
    let op = c.rng.below(3);
    let (r, want) = match op {
        0 => (c.guard("add_ff", || a.add_ff(&b))?, f.add(&ai, &bi)),
        1 => (c.guard("sub_ff", || a.sub_ff(&b))?, f.sub(&ai, &bi)),
        _ => (c.guard("mul_ff", || a.mul_ff(&b))?, f.mul(&ai, &bi)),
    };
    c.count("scalar operations", 1);
    let Ok(r) = r else {
        return fail("scalar/operation-failed", format!("operation {}", op));
    };
    ensure!(
        r.clone_line()[..] == m::to_le(&want)[..],
        "scalar/arithmetic",
        "operation {} of {} and {} gives {}",
        op,
        hexs(&m::to_le(&ai)),
        hexs(&m::to_le(&bi)),
        hexs(&r.clone_line())
    );
    Ok((r, want))
}

/// torsion points, identity, and the like
pub fn special_ed() -> Vec<[u8; 32]> {
    let mut v = vec![];
    let y0 = m::to_le(&m::ONE);
    v.push(y0); // identity
    let mut ym1 = m::to_le(&m::sub(&m::P25519, &m::ONE).0);
    v.push(ym1); // order 2
    ym1[31] |= 0x80;
    v.push(ym1);
    v.push([0; 32]); // order 4
    let mut z = [0; 32];
    z[31] = 0x80;
    v.push(z);
    for h in [
        "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05",
        "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a",
        "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc85",
        "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac03fa",
    ] {
        let mut b = [0; 32];
        for i in 0..32 {
            b[i] = u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap();
        }
        v.push(b);
    }
    // non-canonical: y = p + k
    for k in 0..19u64 {
        let b = m::to_le(&m::add(&m::P25519, &m::small(k)).0);
        v.push(b);
        let mut b = b;
        b[31] |= 0x80;
        v.push(b);
    }
    v
}

fn point_ed(c: &mut Case) -> Res<(EdwardsPoint, m::Ed)> {
    let b: Vec<u8> = match c.rng.below(8) {
        0 => c.rng.pick(&special_ed()).to_vec(),
        1..=4 => loop {
            let b = c.rng.hostile(32);
            if m::Ed::decompress(&b).is_some() {
                break b;
            }
        },
        _ => {
            let k = m::from_le(&clamp(&c.rng.bytes(32)));
            m::Ed::base().mul(&k).compress().to_vec()
        }
    };
    let want = m::Ed::decompress(&b);
    let got = c.guard("point", || EdwardsPoint::try_clone_array(&arr(&b)))?;
    match (got, want) {
        (Ok(p), Some(q)) => Ok((p, q)),
        (Err(()), None) => {
            let k = c.rng.bytes(32);
            let p = EdwardsPoint::base().exp_ec(&S25519::try_clone_array(&arr(&k)).unwrap());
            Ok((p, m::Ed::base().mul(&m::from_le(&clamp(&k)))))
        }
        (g, w) => fail("point/acceptance", format!("{} accepted {} expected {}", hexs(&b), g.is_ok(), w.is_some())),
    }
}

fn same_ed(what: &str, p: &EdwardsPoint, q: &m::Ed) -> Res {
    let want = q.compress();
    ensure!(p.clone_line()[..] == want[..], format!("edwards/{}", what), "{} want {}", hexs(&p.clone_line()), hexs(&want));
    ensure!(Curve::compress(p)[..] == want[..], "edwards/compress", "{} want {}", hexs(&Curve::compress(p)), hexs(&want));
    let mut y = want;
    y[31] &= 0x7f;
    ensure!(p.x_coordinate()[..] == y[..], "edwards/coordinate", "{} want {}", hexs(&p.x_coordinate()), hexs(&y));
    let r = <EdwardsPoint as Curve>::decompress(&arr(&want));
    ensure!(matches!(&r, Ok(r) if r == p), "edwards/decompress", "{} does not read back", hexs(&want));
    Ok(())
}

pub fn edwards(c: &mut Case) -> Res {
    same_ed("base", &EdwardsPoint::base(), &m::Ed::base())?;
    let (p, pm) = point_ed(c)?;
    let (q, qm) = point_ed(c)?;
    let (a, ai) = scalar_25519(c)?;
    let (b, bi) = scalar_25519(c)?;
    c.distinct(&[&p.clone_line()[..], &q.clone_line(), a.as_bytes(), b.as_bytes()].concat());
    same_ed("sum", &c.guard("mul_ec", || p.mul_ec(&q))?, &pm.add(&qm))?;
    same_ed("sum", &c.guard("mul_ec", || q.mul_ec(&p))?, &pm.add(&qm))?;
    same_ed("double", &c.guard("mul_ec", || p.mul_ec(&p))?, &pm.add(&pm))?;
    let pa = c.guard("exp_ec", || p.exp_ec(&a))?;
    same_ed("multiple", &pa, &pm.mul(&ai))?;
    let pb = c.guard("exp_ec", || p.exp_ec(&b))?;
    // key agreement
    let (x, y) = (pa.exp_ec(&b), pb.exp_ec(&a));
    ensure!(x.clone_line() == y.clone_line(), "edwards/agreement", "{} and {}", hexs(&x.clone_line()), hexs(&y.clone_line()));
    same_ed("agreement", &x, &pm.mul(&ai).mul(&bi))?;
    c.count("key agreements", 1);
    // distributivity on the prime-order part
    let g = EdwardsPoint::base();
    let ab = a.add_ff(&b).map_err(|()| mon::Fail { sig: "scalar/operation-failed".into(), detail: "add".into() })?;
    let (x, y) = (g.exp_ec(&a).mul_ec(&g.exp_ec(&b)), g.exp_ec(&ab));
    ensure!(x == y, "edwards/distributive", "a {} b {}", hexs(a.as_bytes()), hexs(b.as_bytes()));
    ensure!(<EdwardsPoint as Curve>::NAME == "25519", "edwards/name", "{}", <EdwardsPoint as Curve>::NAME);
    c.sample(|| format!("P {} a {}", hexs(&p.clone_line()), hexs(a.as_bytes())));
    Ok(())
}

pub fn montgomery(c: &mut Case) -> Res {
    let mut nine = [0u8; 32];
    nine[0] = 9;
    let g = c.guard("base", MontgomeryPoint::base)?;
    ensure!(g.clone_line()[..] == nine[..], "montgomery/base", "{}", hexs(&g.clone_line()));
    let u: Vec<u8> = match c.rng.below(8) {
        0 => {
            let k = c.rng.below(40);
            m::to_le(&m::sub(&m::add(&m::P25519, &m::small(20)).0, &m::small(k)).0).to_vec()
        }
        1 => {
            let mut b = m::Ed::base().mul(&m::from_le(&clamp(&c.rng.bytes(32)))).montgomery();
            b[31] |= (c.rng.below(2) as u8) << 7;
            b.to_vec()
        }
        2 => {
            let mut b = vec![0; 32];
            b[0] = c.rng.below(3) as u8;
            b
        }
        _ => c.rng.hostile(32),
    };
    let Ok(p) = c.guard("point", || MontgomeryPoint::try_clone_array(&arr(&u)))? else {
        return fail("montgomery/rejected", hexs(&u));
    };
    ensure!(p.clone_line()[..] == u[..], "montgomery/round-trip", "{} read as {}", hexs(&u), hexs(&p.clone_line()));
    ensure!(p.compress()[..] == u[..], "montgomery/compress", "{}", hexs(&u));
    let d = <MontgomeryPoint as Curve>::decompress(&arr(&u));
    ensure!(matches!(&d, Ok(d) if d.0[..] == u[..]), "montgomery/decompress", "{}", hexs(&u));
    let (a, ai) = scalar_25519(c)?;
    let (b, bi) = scalar_25519(c)?;
    c.distinct(&[&u[..], a.as_bytes(), b.as_bytes()].concat());
    let pa = c.guard("exp_ec", || p.exp_ec(&a))?;
    let want = m::ladder(&u, &ai);
    ensure!(pa.clone_line()[..] == want[..], "montgomery/multiple", "{} times {} gives {} want {}", hexs(&u), hexs(&m::to_le(&ai)), hexs(&pa.clone_line()), hexs(&want));
    let pb = p.exp_ec(&b);
    let (x, y) = (pa.exp_ec(&b), pb.exp_ec(&a));
    ensure!(x.0 == m::ladder(&want, &bi), "montgomery/multiple", "iterated");
    ensure!(x.0 == y.0, "montgomery/agreement", "u {}", hexs(&u));
    c.count("key agreements", 1);
    // consistent with the Edwards form of the same curve
    let e = EdwardsPoint::base().exp_ec(&a).to_montgomery();
    ensure!(e.0 == g.exp_ec(&a).0, "montgomery/edwards", "a {}", hexs(a.as_bytes()));
    Ok(())
}

pub fn secp_scalar(c: &mut Case) -> Res<(SecretKey, m::U)> {
    let bytes = |c: &mut Case| -> Vec<u8> {
        loop {
            let b = match c.rng.below(6) {
                0 => m::to_be(&m::sub(&m::SECP_N, &m::small(1 + c.rng.below(5))).0).to_vec(),
                1 => m::to_be(&m::small(1 + c.rng.below(5))).to_vec(),
                _ => c.rng.hostile(32),
            };
            let i = m::from_be(&b);
            if i != m::ZERO && m::lt(&i, &m::SECP_N) {
                return b;
            }
        }
    };
    let read = |c: &mut Case| -> Res<(SecretKey, m::U)> {
        let b = bytes(c);
        let Ok(s) = c.guard("scalar", || SecretKey::try_clone_array(&arr(&b)))? else {
            return fail("scalar/rejected", hexs(&b));
        };
        ensure!(s.clone_line()[..] == b[..], "scalar/round-trip", "{}", hexs(&b));
        Ok((s, m::from_be(&b)))
    };
    let (a, ai) = read(c)?;
    if c.rng.chance(1, 2) {
        return Ok((a, ai));
    }
    let (b, bi) = read(c)?;
    let f = &m::SSECP;
    let op = c.rng.below(2);
    let (r, want) = match op {
        0 => (c.guard("add_ff", || a.add_ff(&b))?, f.add(&ai, &bi)),
        _ => (c.guard("mul_ff", || a.mul_ff(&b))?, f.mul(&ai, &bi)),
    };
    c.count("scalar operations", 1);
    match r {
        Ok(r) => {
            ensure!(r.clone_line()[..] == m::to_be(&want)[..], "scalar/arithmetic", "operation {} of {} and {}", op, hexs(&m::to_be(&ai)), hexs(&m::to_be(&bi)));
            Ok((r, want))
        }
        Err(()) => {
            ensure!(want == m::ZERO, "scalar/operation-failed", "operation {} of {} and {}", op, hexs(&m::to_be(&ai)), hexs(&m::to_be(&bi)));
            c.count("zero scalar refused", 1);
            Ok((a, ai))
        }
    }
}

pub fn secp_point(c: &mut Case) -> (PublicKey, m::Sp) {
    loop {
        let mut b = vec![2 + c.rng.below(2) as u8];
        b.extend(c.rng.hostile(32));
        if c.rng.chance(1, 8) {
            let g = m::Sp::base();
            return (PublicKey::base(), g);
        }
        if let Some(q) = m::Sp::decompress(&b) {
            if let Ok(p) = PublicKey::from_slice(&b) {
                return (p, q);
            }
        }
    }
}

fn same_secp(what: &str, p: &PublicKey, q: &m::Sp) -> Res {
    let want = q.line();
    ensure!(p.clone_line()[..] == want[..], format!("secp/{}", what), "{} want {}", hexs(&p.clone_line()), hexs(&want));
    ensure!(p.x_coordinate()[..] == want[..32], "secp/coordinate", "{}", hexs(&p.x_coordinate()));
    let z = q.compress();
    ensure!(p.compress()[..] == z[..], "secp/compress", "{} want {}", hexs(&p.compress()), hexs(&z));
    let r = <PublicKey as Curve>::decompress(&arr(&z));
    ensure!(matches!(&r, Ok(r) if r == p), "secp/decompress", "{} does not read back", hexs(&z));
    let r = PublicKey::try_clone_array(&arr(&want));
    ensure!(matches!(&r, Ok(r) if r == p), "secp/round-trip", "{} does not read back", hexs(&want));
    Ok(())
}

pub fn secp(c: &mut Case) -> Res {
    let g = c.guard("base", PublicKey::base)?;
    same_secp("base", &g, &m::Sp::base())?;
    let (p, pm) = secp_point(c);
    let (q, qm) = secp_point(c);
    let (a, ai) = secp_scalar(c)?;
    let (b, bi) = secp_scalar(c)?;
    c.distinct(&[&p.clone_line()[..], &q.clone_line(), &a[..], &b[..]].concat());
    let s = pm.add(&qm);
    if !s.is_infinity() {
        same_secp("sum", &c.guard("mul_ec", || p.mul_ec(&q))?, &s)?;
        same_secp("sum", &c.guard("mul_ec", || q.mul_ec(&p))?, &s)?;
    }
    same_secp("double", &c.guard("mul_ec", || p.mul_ec(&p))?, &pm.add(&pm))?;
    let pa = c.guard("exp_ec", || p.exp_ec(&a))?;
    same_secp("multiple", &pa, &pm.mul(&ai))?;
    let pb = p.exp_ec(&b);
    let (x, y) = (pa.exp_ec(&b), pb.exp_ec(&a));
    ensure!(x == y, "secp/agreement", "{} and {}", hexs(&x.clone_line()), hexs(&y.clone_line()));
    same_secp("agreement", &x, &pm.mul(&ai).mul(&bi))?;
    c.count("key agreements", 1);
    if let Ok(ab) = a.add_ff(&b) {
        let x = g.exp_ec(&a).mul_ec(&g.exp_ec(&b));
        ensure!(x == g.exp_ec(&ab), "secp/distributive", "a {} b {}", hexs(&a[..]), hexs(&b[..]));
    }
    ensure!(<PublicKey as Curve>::NAME == "secp256k1", "secp/name", "{}", <PublicKey as Curve>::NAME);
    Ok(())
}

// ------------------------------------------------------------------ R03
pub fn decode_25519(c: &mut Case) -> Res {
    let b: Vec<u8> = match c.rng.below(6) {
        0 => {
            let v = special_ed();
            let i = (c.index as usize / 6) % v.len();
            v[i].to_vec()
        }
        1 => {
            let mut b = m::Ed::base().mul(&m::from_le(&clamp(&c.rng.bytes(32)))).compress().to_vec();
            c.rng.mutate(&mut b);
            b
        }
        2 => m::Ed::base().mul(&m::from_le(&clamp(&c.rng.bytes(32)))).compress().to_vec(),
        _ => c.rng.hostile(32),
    };
    c.distinct(&b);
    let want = m::Ed::decompress(&b);
    for (how, got) in [
        ("line", c.guard("point", || EdwardsPoint::try_clone_array(&arr(&b)))?),
        ("compressed", c.guard("decompress", || <EdwardsPoint as Curve>::decompress(&arr(&b)))?),
    ] {
        match (&got, &want) {
            (Ok(p), Some(q)) => {
                ensure!(p.clone_line()[..] == q.compress()[..], "decode/value", "{} {} read as {}", how, hexs(&b), hexs(&p.clone_line()));
                c.count("accepted", 1);
            }
            (Err(()), None) => c.count("rejected", 1),
            _ => return fail("decode/acceptance", format!("edwards {} {} accepted {} expected {}", how, hexs(&b), got.is_ok(), want.is_some())),
        }
    }
    // scalars: every 32 bytes are read, clamped, and then stable
    let Ok(s) = c.guard("scalar", || S25519::try_clone_array(&arr(&b)))? else {
        return fail("scalar/rejected", hexs(&b));
    };
    let l = s.clone_line();
    ensure!(l[..] == clamp(&b)[..], "scalar/clamp", "{} read as {}", hexs(&b), hexs(&l));
    let t = S25519::try_clone_array(&l);
    ensure!(matches!(&t, Ok(t) if t.clone_line() == l), "scalar/stable", "{} read again differs", hexs(&l));
    c.sample(|| format!("{} valid point {}", hexs(&b), want.is_some()));
    Ok(())
}

pub fn decode_secp(c: &mut Case) -> Res {
    // scalars
    let b: Vec<u8> = match c.rng.below(4) {
        0 => {
            let k = c.rng.below(7);
            m::to_be(&m::sub(&m::add(&m::SECP_N, &m::small(3)).0, &m::small(k)).0).to_vec()
        }
        1 => m::to_be(&m::small(c.rng.below(3))).to_vec(),
        _ => c.rng.hostile(32),
    };
    let i = m::from_be(&b);
    let ok = i != m::ZERO && m::lt(&i, &m::SECP_N);
    let r = c.guard("scalar", || SecretKey::try_clone_array(&arr(&b)))?;
    ensure!(r.is_ok() == ok, "decode/acceptance", "scalar {} accepted {} expected {}", hexs(&b), r.is_ok(), ok);
    if let Ok(s) = r {
        ensure!(s.clone_line()[..] == b[..], "decode/value", "scalar {}", hexs(&b));
    }
    c.distinct(&b);
    // uncompressed points
    let b: Vec<u8> = match c.rng.below(5) {
        0 => c.rng.hostile(64),
        1 => {
            let mut b = secp_point(c).1.line();
            c.rng.mutate(&mut b);
            b
        }
        2 => {
            // coordinate not reduced: x + p, if it fits
            let (x, y) = secp_point(c).1.xy();
            let (x2, o) = m::add(&x, &m::SECP_P);
            [m::to_be(if o { &m::SECP_P } else { &x2 }), m::to_be(&y)].concat()
        }
        _ => secp_point(c).1.line(),
    };
    c.distinct(&b);
    let want = m::Sp::from_line(&b);
    match (c.guard("point", || PublicKey::try_clone_array(&arr(&b)))?, &want) {
        (Ok(p), Some(_)) => {
            ensure!(p.clone_line()[..] == b[..], "decode/value", "point {}", hexs(&b));
            c.count("accepted", 1);
        }
        (Err(()), None) => c.count("rejected", 1),
        (g, w) => return fail("decode/acceptance", format!("point {} accepted {} expected {}", hexs(&b), g.is_ok(), w.is_some())),
    }
    // compressed points
    let mut b = vec![if c.rng.chance(7, 8) { 2 + c.rng.below(2) as u8 } else { c.rng.u8() }];
    b.extend(match c.rng.below(4) {
        0 => {
            let k = c.rng.below(8);
            m::to_be(&m::sub(&m::add(&m::SECP_P, &m::small(4)).0, &m::small(k)).0).to_vec()
        }
        _ => c.rng.hostile(32),
    });
    c.distinct(&b);
    let want = m::Sp::decompress(&b);
    match (c.guard("decompress", || <PublicKey as Curve>::decompress(&arr(&b)))?, &want) {
        (Ok(p), Some(q)) => {
            ensure!(p.clone_line()[..] == q.line()[..] && p.compress()[..] == b[..], "decode/value", "compressed {}", hexs(&b));
            c.count("accepted", 1);
        }
        (Err(()), None) => c.count("rejected", 1),
        (g, w) => return fail("decode/acceptance", format!("compressed {} accepted {} expected {}", hexs(&b), g.is_ok(), w.is_some())),
    }
    // compact signatures
    let mut b = c.rng.bytes(64);
    if c.rng.chance(1, 3) {
        let at = 32 * c.rng.below(2) as usize;
        let k = c.rng.below(4);
        b[at..at + 32].copy_from_slice(&m::to_be(&m::sub(&m::add(&m::SECP_N, &m::ONE).0, &m::small(k)).0));
    }
    let ok = m::lt(&m::from_be(&b[..32]), &m::SECP_N) && m::lt(&m::from_be(&b[32..]), &m::SECP_N);
    let r = c.guard("ecdsa", || Ecdsa::try_clone_array(&arr(&b)))?;
    ensure!(r.is_ok() == ok, "decode/acceptance", "compact signature {} accepted {}", hexs(&b), r.is_ok());
    if let Ok(s) = r {
        ensure!(s.clone_line()[..] == b[..], "decode/value", "compact signature {}", hexs(&b));
        c.count("accepted", 1);
    }
    Ok(())
}

/// A scalar that results from arithmetic, written and read again, is the same scalar.
pub fn reread_derived(c: &mut Case) -> Res {
    if c.index % 2 == 0 {
        let (a, _) = secp_scalar(c)?;
        let b = SecretKey::try_clone_array(&a.clone_line());
        ensure!(matches!(&b, Ok(b) if *b == a), "reread/secp256k1", "{}", hexs(&a[..]));
        c.count("accepted", 1);
        return Ok(());
    }
    let x = S25519::try_clone_array(&arr(&c.rng.bytes(32))).unwrap();
    let y = S25519::try_clone_array(&arr(&c.rng.bytes(32))).unwrap();
    let s = match c.rng.below(3) {
        0 => x.add_ff(&y),
        1 => x.sub_ff(&y),
        _ => x.mul_ff(&y),
    };
    let Ok(s) = s else {
        return fail("scalar/operation-failed", "");
    };
    let t = S25519::try_clone_array(&s.clone_line());
    let g = EdwardsPoint::base();
    ensure!(
        matches!(&t, Ok(t) if g.exp_ec(t) == g.exp_ec(&s)),
        "reread/derived-25519",
        "scalar {} reads back as another scalar",
        hexs(&s.clone_line())
    );
    Ok(())
}
