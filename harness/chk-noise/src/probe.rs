//! Monitors over what the implementation hands to its AEAD: an instrumented AEAD records every
//! (key, nonce) used, a counting one follows the nonce past 32 bits.
use crate::dynstate::*;
use crate::{decrypt, encrypt, mix, name, script, Op};
use aead::{generic_array::typenum as tn, AeadCore, AeadInPlace, NewAead};
use generic_array::{typenum::*, GenericArray};
use mon::{ensure, fail, hex, hexs, Case, Res};
use sha2::Digest;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::marker::PhantomData;
use vru_noise::{Aead, ChainingKey, Cipher, Config, Key, Rotor, SymmetricState};

#[derive(Clone, Debug, PartialEq)]
pub struct Use {
    pub seal: bool,
    pub key: [u8; 32],
    pub nonce: [u8; 12],
    pub ok: bool,
}

thread_local! {
    static LOG: RefCell<Vec<Use>> = const { RefCell::new(vec![]) };
    static ROT: RefCell<Vec<(Vec<u8>, Vec<u8>, u64)>> = const { RefCell::new(vec![]) };
}

fn drain() -> Vec<Use> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

#[derive(Clone)]
pub struct Rec {
    key: [u8; 32],
}

impl NewAead for Rec {
    type KeySize = tn::U32;
    fn new(k: &GenericArray<u8, tn::U32>) -> Self {
        Rec { key: (*k).into() }
    }
}
impl AeadCore for Rec {
    type NonceSize = tn::U12;
    type TagSize = tn::U16;
    type CiphertextOverhead = tn::U0;
}
impl Rec {
    fn tag(&self, n: &[u8], ad: &[u8], ct: &[u8]) -> [u8; 16] {
        let d = sha2::Sha256::new()
            .chain(self.key)
            .chain(n)
            .chain((ad.len() as u64).to_le_bytes())
            .chain(ad)
            .chain(ct)
            .finalize();
        d[..16].try_into().unwrap()
    }
    fn mask(&self, n: &[u8], b: &mut [u8]) {
        let d = sha2::Sha256::new().chain(b"mask").chain(self.key).chain(n).finalize();
        for (i, x) in b.iter_mut().enumerate() {
            *x ^= d[i % 32];
        }
    }
}
impl AeadInPlace for Rec {
    fn encrypt_in_place_detached(&self, n: &aead::Nonce<Self>, ad: &[u8], b: &mut [u8]) -> Result<aead::Tag<Self>, aead::Error> {
        LOG.with(|l| l.borrow_mut().push(Use { seal: true, key: self.key, nonce: (*n).into(), ok: true }));
        self.mask(n, b);
        Ok(self.tag(n, ad, b).into())
    }
    fn decrypt_in_place_detached(&self, n: &aead::Nonce<Self>, ad: &[u8], b: &mut [u8], tag: &aead::Tag<Self>) -> Result<(), aead::Error> {
        let ok = self.tag(n, ad, b)[..] == tag[..];
        LOG.with(|l| l.borrow_mut().push(Use { seal: false, key: self.key, nonce: (*n).into(), ok }));
        if !ok {
            return Err(aead::Error);
        }
        self.mask(n, b);
        Ok(())
    }
}

pub type P0 = (sha2::Sha256, byteorder::LittleEndian, Rec);
pub type P1 = (sha2::Sha256, byteorder::BigEndian, Rec);

dynstate_suite!(P0);
dynstate_suite!(P1);

fn counter(le: bool, n: &[u8; 12]) -> Option<u64> {
    if n[..4] != [0; 4] {
        return None;
    }
    let b: [u8; 8] = n[4..].try_into().unwrap();
    Some(if le { u64::from_le_bytes(b) } else { u64::from_be_bytes(b) })
}

/// Online monitor: per key the seals carry counters 0,1,2,... and never repeat; every open uses
/// the counter of the message it is given.
#[derive(Default)]
struct Mon {
    sealed: HashMap<[u8; 32], u64>,
    opened: HashMap<[u8; 32], u64>,
}
impl Mon {
    fn feed(&mut self, c: &mut Case, le: bool, log: &[Use], ctx: &str) -> Res {
        for u in log {
            let Some(n) = counter(le, &u.nonce) else {
                return fail("nonce/format", format!("nonce {} is not a 64-bit counter with zero prefix; {}", hex(&u.nonce), ctx));
            };
            if u.seal {
                let e = self.sealed.entry(u.key).or_insert(0);
                c.count("encryptions recorded", 1);
                ensure!(n >= *e, "nonce/reuse", "key {} encrypts twice with nonce {} (next unused {}); {}", hexs(&u.key), n, *e, ctx);
                ensure!(n == *e, "nonce/gap", "key {} jumps to nonce {} (expected {}); {}", hexs(&u.key), n, *e, ctx);
                *e += 1;
            } else {
                let e = self.opened.entry(u.key).or_insert(0);
                c.count("decryptions recorded", 1);
                ensure!(n == *e, "nonce/receive-counter", "key {} decrypts with nonce {} (expected {}); {}", hexs(&u.key), n, *e, ctx);
                if u.ok {
                    *e += 1;
                }
            }
        }
        Ok(())
    }
}

fn pstart(le: bool, name: &str) -> Box<dyn State> {
    if le {
        P0::start(name)
    } else {
        P1::start(name)
    }
}

pub fn n04(c: &mut Case) -> Res {
    let le = c.index % 2 == 0;
    let nm = name(&mut c.rng);
    let ops = script(&mut c.rng);
    drain();
    let mut mon = Mon::default();
    let mut a = pstart(le, &nm);
    let mut b = pstart(le, &nm);
    let ctx = format!("le={} ops={}", le, ops.len());
    for op in &ops {
        if let Op::Msg { from_a, ext, data } = op {
            let (s, r) = if *from_a { (a, b) } else { (b, a) };
            let (s, ct) = c.guard("encrypt", || encrypt(s, *ext, data))?;
            let Some((r, pt)) = c.guard("decrypt", || decrypt(r, &ct))? else {
                return fail("nonce/receive-counter", format!("honest message rejected; {}", ctx));
            };
            ensure!(pt == *data, "nonce/plaintext", "{}", ctx);
            (a, b) = if *from_a { (s, r) } else { (r, s) };
        } else {
            a = mix(a, op);
            b = mix(b, op);
        }
        mon.feed(c, le, &drain(), &ctx)?;
    }
    let (mut ca, cb) = (a.finish().0, b.finish().0);
    let mut cb = cb.swap();
    let mut hist = String::new();
    let mut last: [Option<Vec<u8>>; 2] = [None, None];
    for _ in 0..c.rng.range(1, 40) {
        let d = c.rng.below(2) as usize;
        let (s, r) = if d == 0 { (&mut ca, &mut cb) } else { (&mut cb, &mut ca) };
        if c.rng.chance(1, 3) {
            // a delivery that must fail and must not move the counter
            let bad = match (&last[d], c.rng.below(2)) {
                (Some(x), 0) => x.clone(),
                _ => {
                    let l = c.rng.below(40) as usize;
                    c.rng.hostile(l)
                }
            };
            let mut buf = bad;
            let ok = c.guard("receive", || r.decrypt_ext(b"x", &mut buf))?;
            ensure!(!ok, "nonce/replay-accepted", "{} {}", ctx, hist);
            hist.push('!');
        } else {
            let mut buf = c.rng.bytes(12);
            let pt = buf.clone();
            s.encrypt_ext(b"x", &mut buf);
            last[d] = Some(buf.clone());
            let ok = c.guard("receive", || r.decrypt_ext(b"x", &mut buf))?;
            ensure!(ok && buf == pt, "nonce/receive-counter", "honest channel message rejected; {} {}", ctx, hist);
            hist.push(if d == 0 { '>' } else { '<' });
        }
        mon.feed(c, le, &drain(), &hist)?;
    }
    c.distinct(format!("{} {:?} {}", nm, ops, hist).as_bytes());
    c.sample(|| format!("le={} {} steps, channel {}; {} keys recorded", le, ops.len(), hist, mon.sealed.len()));
    Ok(())
}

// ---------------------------------------------------------------- rotation

#[derive(Clone)]
pub struct Rot<const I: u64> {
    ck: Vec<u8>,
    key: Vec<u8>,
    calls: u64,
}

fn derived(ck: &[u8], key: &[u8], n: u64) -> [u8; 32] {
    sha2::Sha256::new().chain(ck).chain(key).chain(n.to_le_bytes()).finalize().into()
}

impl<const I: u64, C> Rotor<C> for Rot<I>
where
    C: Config<Aead = Rec>,
{
    const INTERVAL: u64 = I;
    fn new(chaining_key: ChainingKey<C>, key: Aead<C>) -> Self {
        Rot { ck: chaining_key.to_vec(), key: key.to_vec(), calls: 0 }
    }
    fn rotate(&mut self, key: &mut Rec) {
        self.calls += 1;
        ROT.with(|r| r.borrow_mut().push((self.ck.clone(), self.key.clone(), self.calls)));
        *key = Rec { key: derived(&self.ck, &self.key, self.calls) };
    }
}

fn handshake(c: &mut Case) -> SymmetricState<P0, Key<P0, U0>> {
    let s = SymmetricState::<P0, ChainingKey<P0>>::new("rotation").mix_hash(&c.rng.bytes(9));
    s.mix_shared_secret(&c.rng.bytes(32))
}

fn rotation<const I: u64>(c: &mut Case) -> Res {
    let total = c.rng.range(1, 6 * I.min(60) + 12);
    rotation_over::<I>(c, total)
}

fn rotation_over<const I: u64>(c: &mut Case, total: u64) -> Res {
    let mut twin = mon::Rng::new(c.rng.u64());
    let mut save = twin.clone();
    std::mem::swap(&mut c.rng, &mut twin);
    let a = handshake(c);
    std::mem::swap(&mut c.rng, &mut save);
    let b = handshake(c);
    c.rng = twin;
    // model of the split
    let (mut ca, _): (Cipher<P0, Rot<I>>, _) = a.finish();
    let (cb, _): (Cipher<P0, Rot<I>>, _) = b.finish();
    let mut cb = cb.swap();
    drain();
    ROT.with(|r| r.borrow_mut().clear());
    // key index by direction: [sent, received]
    let mut n = [0u64, 0];
    let mut keys: [Vec<[u8; 32]>; 2] = [vec![], vec![]];
    let mut base: Option<Vec<u8>> = None;
    for step in 0..total {
        let d = c.rng.below(2) as usize;
        let (s, r) = if d == 0 { (&mut ca, &mut cb) } else { (&mut cb, &mut ca) };
        if c.rng.chance(1, 4) {
            let mut buf = c.rng.bytes(30);
            ensure!(r.decrypt_ext(b"", &mut buf).is_err(), "rotation/garbage-accepted", "step {}", step);
            ensure!(ROT.with(|x| x.borrow().is_empty()), "rotation/on-failure", "a rejected message rotated the key");
            drain();
            continue;
        }
        let mut buf = step.to_le_bytes().to_vec();
        s.encrypt_ext(b"", &mut buf);
        let rs = ROT.with(|x| std::mem::take(&mut *x.borrow_mut()));
        let ok = r.decrypt_ext(b"", &mut buf);
        let rr = ROT.with(|x| std::mem::take(&mut *x.borrow_mut()));
        ensure!(ok.is_ok() && buf == step.to_le_bytes(), "rotation/out-of-step", "interval {}: message {} of direction {} rejected", I, n[d], d);
        let log = drain();
        ensure!(log.len() == 2 && log[0].key == log[1].key && log[0].nonce == log[1].nonce, "rotation/out-of-step", "interval {} message {}: ends use different key or nonce", I, n[d]);
        // messages kI..(k+1)I share a key that is new to this direction, counter keeps running
        let epoch = (n[d] / I) as usize;
        if epoch == keys[d].len() {
            ensure!(!keys[0].contains(&log[0].key) && !keys[1].contains(&log[0].key), "rotation/key-reused", "interval {} message {}", I, n[d]);
            keys[d].push(log[0].key);
        }
        ensure!(
            epoch + 1 == keys[d].len() && keys[d][epoch] == log[0].key,
            "rotation/wrong-interval",
            "interval {}: message {} of direction {} is not under key number {}",
            I, n[d], d, epoch
        );
        ensure!(counter(true, &log[0].nonce) == Some(n[d]), "nonce/gap", "interval {} message {} nonce {}", I, n[d], hex(&log[0].nonce));
        n[d] += 1;
        let want = if n[d] % I == 0 { 1 } else { 0 };
        ensure!(
            rs.len() == want && rr.len() == want && rs == rr,
            "rotation/wrong-interval",
            "interval {}: after {} messages sender rotated {} times, receiver {} times (want {})",
            I, n[d], rs.len(), rr.len(), want
        );
        if let Some((ck, k0, calls)) = rs.first() {
            ensure!(*calls == n[d] / I, "rotation/wrong-interval", "interval {}: {} rotations after {} messages", I, calls, n[d]);
            ensure!(k0[..] == keys[d][0], "rotation/wrong-material", "the rotor was not given this direction's key");
            let first = base.get_or_insert_with(|| ck.clone());
            ensure!(first == ck, "rotation/wrong-material", "the two directions' rotors got different chaining keys");
            ensure!(ck[..] != keys[0].first().copied().unwrap_or_default()[..], "rotation/wrong-material", "chaining key equals a traffic key");
            c.count("rotations seen", 2);
        }
        c.count("encryptions recorded", 1);
    }
    c.distinct(format!("{} {:?} {:?}", I, n, keys).as_bytes());
    c.sample(|| format!("interval {}: {}/{} messages, {}/{} keys", I, n[0], n[1], keys[0].len(), keys[1].len()));
    Ok(())
}

pub fn n04_rotation(c: &mut Case) -> Res {
    match c.index % 7 {
        0 => rotation::<1>(c),
        1 => rotation::<2>(c),
        2 => rotation::<3>(c),
        3 => rotation::<5>(c),
        4 => rotation::<16>(c),
        5 => rotation::<64>(c),
        _ => rotation::<7>(c),
    }
}

/// Intervals around the widths a counter or an interval may be squeezed into.
pub fn n04_rotation_wide(c: &mut Case) -> Res {
    fn go<const I: u64>(c: &mut Case) -> Res {
        // at least two rotations in one of the directions
        let total = 6 * I + c.rng.below(20);
        rotation_over::<I>(c, total)
    }
    match c.index % 12 {
        0 => go::<65536>(c),
        1 => go::<65537>(c),
        2 => go::<65535>(c),
        3 => go::<32768>(c),
        4 => go::<100>(c),
        5 => go::<127>(c),
        6 => go::<128>(c),
        7 => go::<255>(c),
        8 => go::<256>(c),
        9 => go::<257>(c),
        10 => go::<300>(c),
        _ => go::<4096>(c),
    }
}

// ---------------------------------------------------------------- long handshake chain

macro_rules! one {
    ($a:ident $b:ident $i:ident $bad:ident) => {
        let mut buf = $i.to_le_bytes();
        let ($a, t) = $a.encrypt(&mut buf);
        let $b = match $b.decrypt(&mut buf, t) {
            Ok(b) => b,
            Err(_) => return fail("nonce/receive-counter", format!("message {} of one handshake key rejected", $i)),
        };
        if buf != $i.to_le_bytes() {
            $bad.get_or_insert($i);
        }
        $i += 1;
    };
}
macro_rules! ten {
    ($m:ident $($v:ident)*) => {
        $m!($($v)*); $m!($($v)*); $m!($($v)*); $m!($($v)*); $m!($($v)*);
        $m!($($v)*); $m!($($v)*); $m!($($v)*); $m!($($v)*); $m!($($v)*);
    };
}
macro_rules! ten_ones {
    ($($v:ident)*) => { ten!(one $($v)*); };
}

macro_rules! chain {
    ($fn:ident, $c:ty, $le:expr) => {
        fn $fn(c: &mut Case) -> Res {
            let secret = c.rng.bytes(32);
            let a = SymmetricState::<$c, ChainingKey<$c>>::new("chain").mix_shared_secret(&secret);
            let b = SymmetricState::<$c, ChainingKey<$c>>::new("chain").mix_shared_secret(&secret);
            drain();
            let mut i = 0u64;
            let mut bad: Option<u64> = None;
            ten!(ten_ones a b i bad);
            ten!(ten_ones a b i bad);
            ten!(ten_ones a b i bad);
            ensure!(bad.is_none(), "nonce/plaintext", "message {:?}", bad);
            ensure!(a.hash() == b.hash(), "nonce/hash", "hashes differ after {} messages", i);
            let mut m = Mon::default();
            m.feed(c, $le, &drain(), "one handshake key")?;
            c.distinct(&secret);
            Ok(())
        }
    };
}
chain!(chain_le, P0, true);
chain!(chain_be, P1, false);

pub fn n04_chain(c: &mut Case) -> Res {
    if c.index % 2 == 0 {
        chain_le(c)
    } else {
        chain_be(c)
    }
}

// ---------------------------------------------------------------- past 2^32 messages

/// Follows the counter itself: `next` is the nonce it must see; the first deviation is kept.
pub struct Null<E> {
    next: Cell<u64>,
    _e: PhantomData<E>,
}
impl<E> Clone for Null<E> {
    fn clone(&self) -> Self {
        Null { next: self.next.clone(), _e: PhantomData }
    }
}
thread_local! {
    static BAD: RefCell<Option<(u64, [u8; 12])>> = const { RefCell::new(None) };
    static SEEN: Cell<u64> = const { Cell::new(0) };
}
#[cold]
#[inline(never)]
fn deviation(i: u64, n: &[u8]) {
    BAD.with(|b| {
        b.borrow_mut().get_or_insert((i, n.try_into().unwrap()));
    })
}
impl<E> Drop for Null<E> {
    fn drop(&mut self) {
        SEEN.with(|s| s.set(s.get().max(self.next.get())));
    }
}
impl<E> NewAead for Null<E> {
    type KeySize = tn::U32;
    fn new(_: &GenericArray<u8, tn::U32>) -> Self {
        Null { next: Cell::new(0), _e: PhantomData }
    }
}
impl<E> AeadCore for Null<E> {
    type NonceSize = tn::U12;
    type TagSize = tn::U0;
    type CiphertextOverhead = tn::U0;
}
impl<E: byteorder::ByteOrder> Null<E> {
    #[inline(always)]
    fn see(&self, n: &[u8]) {
        let i = self.next.get();
        if E::read_u64(&n[4..]) != i || E::read_u32(&n[..4]) != 0 {
            deviation(i, n);
        }
        self.next.set(i + 1);
    }
}
impl<E: byteorder::ByteOrder> AeadInPlace for Null<E> {
    #[inline(always)]
    fn encrypt_in_place_detached(&self, n: &aead::Nonce<Self>, _: &[u8], _: &mut [u8]) -> Result<aead::Tag<Self>, aead::Error> {
        self.see(n);
        Ok(GenericArray::default())
    }
    #[inline(always)]
    fn decrypt_in_place_detached(&self, n: &aead::Nonce<Self>, _: &[u8], _: &mut [u8], _: &aead::Tag<Self>) -> Result<(), aead::Error> {
        self.see(n);
        Ok(())
    }
}

/// A rotor whose interval needs more than 32 bits; remembers after which messages it was called.
#[derive(Clone)]
pub struct Far<const I: u64>;
thread_local! {
    static FAR: RefCell<Vec<u64>> = const { RefCell::new(vec![]) };
}
impl<const I: u64, E> Rotor<(sha2::Sha256, E, Null<E>)> for Far<I>
where
    E: byteorder::ByteOrder + 'static,
{
    const INTERVAL: u64 = I;
    fn new(_: ChainingKey<(sha2::Sha256, E, Null<E>)>, _: Aead<(sha2::Sha256, E, Null<E>)>) -> Self {
        Far
    }
    #[cold]
    fn rotate(&mut self, key: &mut Null<E>) {
        let n = key.next.get();
        FAR.with(|f| {
            let mut f = f.borrow_mut();
            if f.len() < 100 {
                f.push(n)
            }
        })
    }
}
const FAR_INTERVAL: u64 = (1 << 32) + 7;

fn long<E: byteorder::ByteOrder + 'static>(c: &mut Case, le: bool, send: bool) -> Res {
    type N<E> = (sha2::Sha256, E, Null<E>);
    FAR.with(|f| f.borrow_mut().clear());
    BAD.with(|b| *b.borrow_mut() = None);
    let s = SymmetricState::<N<E>, ChainingKey<N<E>>>::new("long").mix_shared_secret(&[1]);
    let (mut ch, _): (Cipher<N<E>, Far<FAR_INTERVAL>>, _) = s.finish();
    let total = (1u64 << 32) + 1000;
    let tag = GenericArray::default();
    let rejected = c.guard("long-run", || {
        for i in 0..total {
            if send {
                ch.encrypt(&[], &mut []);
            } else if ch.decrypt(&[], &mut [], &tag).is_err() {
                return Some(i);
            }
        }
        None
    })?;
    SEEN.with(|s| s.set(0));
    drop(ch);
    let seen = SEEN.with(|s| s.get());
    let bad = BAD.with(|b| b.borrow().clone());
    ensure!(rejected.is_none(), "nonce/receive-counter", "message {:?} rejected", rejected);
    if let Some((i, n)) = bad {
        return fail("nonce/reuse", format!("message {} of a channel is processed with nonce {} (little endian {})", i, hex(&n), le));
    }
    let far = FAR.with(|f| f.borrow().clone());
    ensure!(far == [FAR_INTERVAL], "rotation/wrong-interval", "interval {}: in {} messages rotated after messages {:?}", FAR_INTERVAL, total, far);
    c.count("rotations past 32 bits", 1);
    ensure!(seen == total, "nonce/calls", "{} messages, {} cipher calls", total, seen);
    c.count("messages on one channel", seen);
    c.distinct(&[le as u8, send as u8]);
    c.sample(|| format!("{} messages on one channel, little endian {}, send {}", seen, le, send));
    Ok(())
}

pub fn n04_long(c: &mut Case) -> Res {
    match c.index % 4 {
        0 => long::<byteorder::LittleEndian>(c, true, true),
        1 => long::<byteorder::BigEndian>(c, false, true),
        2 => long::<byteorder::LittleEndian>(c, true, false),
        _ => long::<byteorder::BigEndian>(c, false, false),
    }
}
