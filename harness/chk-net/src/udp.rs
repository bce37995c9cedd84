use crate::{inject, interrupt_nodes, no_panics, timed, until, LONG};
use mon::{ensure, fail, hexs, Case, Res};
use rac::{generic_array::GenericArray, Concat, Line, LineValid};
use std::{
    collections::{HashMap, HashSet},
    net::{SocketAddr, UdpSocket},
    sync::{
        atomic::{AtomicBool, Ordering},
        mpsc, Arc, Mutex, OnceLock,
    },
    time::{Duration, Instant},
};
use vru_session::handshake::{xx, Identity, PublicKey};
use vru_udp::{Command, Error, Event, LocalCommand, LocalEvent, Node};

const SIZE: usize = 1280;

#[derive(Debug, Clone, PartialEq)]
pub enum Ev {
    Frame(SocketAddr, usize),
    Failed(SocketAddr),
    Read(String),
    Write(SocketAddr, String),
    Info(String),
    Local(String),
    End,
}

fn convert(e: Event) -> Ev {
    // whoever receives events prints them
    let _ = format!("{:?}", e);
    match e {
        Event::Error(Error::ReadSocket(e)) => Ev::Read(e.to_string()),
        Event::Error(Error::FrameSize(a, n)) => Ev::Frame(a, n),
        Event::Error(Error::ConnectionFailed(a)) => Ev::Failed(a),
        Event::Error(Error::WriteTo(a, e)) => Ev::Write(a, e.to_string()),
        Event::Local { local: LocalEvent::ReceivedText(t), .. } => Ev::Local(t),
        Event::Local { local, .. } => Ev::Local(format!("{:?}", local)),
        Event::Info(t) => Ev::Info(t),
    }
}

struct N {
    node: Node,
    events: mpsc::Receiver<Ev>,
    running: Arc<AtomicBool>,
    address: SocketAddr,
    /// events are read once this is set
    reading: Arc<AtomicBool>,
    /// nobody holds the event stream
    deaf: bool,
    /// where it has sent something to
    sent: inject::Guard,
}

/// First handshake messages received from a node (by its port) at an address.
fn taken() -> &'static Mutex<HashMap<(u16, SocketAddr), usize>> {
    static T: OnceLock<Mutex<HashMap<(u16, SocketAddr), usize>>> = OnceLock::new();
    T.get_or_init(Default::default)
}

fn take(port: u16, at: SocketAddr) {
    *taken().lock().unwrap_or_else(|e| e.into_inner()).entry((port, at)).or_insert(0) += 1;
}

/// What the owner of the node does with its events.
#[derive(Clone, Copy, PartialEq)]
enum Reader {
    Reads,
    /// only after being told to
    Waits,
    /// drops the stream at once
    Drops,
}

fn keys(c: &mut Case) -> (PublicKey, vru_session::handshake::SecretKey) {
    PublicKey::gen(GenericArray::from_slice(&c.rng.bytes(96)))
}

fn identity(c: &mut Case) -> Identity {
    keys(c).0.identity()
}

fn identity_of(n: u8) -> Identity {
    PublicKey::gen(GenericArray::from_slice(&[n; 96])).0.identity()
}

fn spawn(c: &mut Case) -> Res<N> {
    spawn_reader(c, Reader::Reads)
}

fn spawn_reader(c: &mut Case, reader: Reader) -> Res<N> {
    for _ in 0..100 {
        let port = mon::free_port();
        let (pk, sk) = keys(c);
        let running = Arc::new(AtomicBool::new(true));
        let r = running.clone();
        let Ok((node, node_ref)) = c.guard("spawn", || Node::spawn(sk, pk, port, r))? else {
            continue; // somebody else took the port
        };
        let sent = inject::watch(inject::Call::SendTo, port);
        let (tx, events) = mpsc::channel();
        let polling = c.rng.chance(1, 2);
        let reading = Arc::new(AtomicBool::new(reader == Reader::Reads));
        let gate = reading.clone();
        let address = ([127, 0, 0, 1], port).into();
        if reader == Reader::Drops {
            drop(node_ref);
            return Ok(N { node, events, running, address, reading, deaf: true, sent });
        }
        std::thread::Builder::new()
            .name("harness-events".into())
            .spawn(move || loop {
                while !gate.load(Ordering::Acquire) {
                    std::thread::sleep(Duration::from_micros(300));
                }
                let e = if polling {
                    match node_ref.try_recv() {
                        Ok(Some(e)) => convert(e),
                        Ok(None) => {
                            std::thread::sleep(Duration::from_micros(300));
                            continue;
                        }
                        Err(_) => Ev::End,
                    }
                } else {
                    match node_ref.recv() {
                        Ok(e) => convert(e),
                        Err(_) => Ev::End,
                    }
                };
                let end = e == Ev::End;
                if tx.send(e).is_err() || end {
                    break;
                }
            })
            .expect("spawn");
        return Ok(N { node, events, running, address, reading, deaf: false, sent });
    }
    fail("spawn/failed", "no port could be bound in 100 attempts")
}

/// Datagrams the kernel dropped on this socket (so missing events would not be the node's fault).
fn kernel_drops(port: u16) -> u64 {
    let t = std::fs::read_to_string("/proc/self/net/udp").unwrap_or_default();
    let want = format!(":{:04X}", port);
    t.lines()
        .filter(|l| l.split_whitespace().nth(1).is_some_and(|a| a.ends_with(&want)))
        .filter_map(|l| l.split_whitespace().last()?.parse::<u64>().ok())
        .sum()
}

impl N {
    fn next(&self) -> Res<Ev> {
        match self.events.recv_timeout(LONG) {
            Ok(e) => Ok(e),
            Err(_) => fail("event/missing", format!("no event in {:?} (kernel drops {})", LONG, kernel_drops(self.address.port()))),
        }
    }

    fn no_more(&self, wait: u64) -> Res {
        match self.events.recv_timeout(Duration::from_millis(wait)) {
            Err(_) => Ok(()),
            Ok(e) => fail("event/unexpected", format!("{:?}", e)),
        }
    }

    /// Stop it, expecting the events to end; returns the remaining events.
    fn stop(self, c: &mut Case) -> Res<Vec<Ev>> {
        let N { node, events, running, reading, deaf, sent, address } = self;
        running.store(false, Ordering::Release);
        match timed(move || node.join()) {
            None => return fail("shutdown/stuck", format!("join did not return in {:?}", LONG)),
            Some(None) => {
                no_panics()?;
                return fail("panic/join", "join panicked");
            }
            Some(Some((_, d))) => {
                c.count("nodes stopped", 1);
                ensure!(d < Duration::from_secs(20), "shutdown/slow", "join took {:?}", d);
            }
        }
        let mut v = vec![];
        reading.store(true, Ordering::Release);
        while !deaf {
            match events.recv_timeout(LONG) {
                Ok(Ev::End) => break,
                Ok(e) => v.push(e),
                Err(_) => return fail("shutdown/events-open", "the event stream did not end after the node was joined"),
            }
        }
        no_panics()?;
        // whatever was sent was received as the answer to a dial
        let mut to: HashMap<SocketAddr, usize> = HashMap::new();
        for a in sent.to() {
            match a {
                Some(a) => *to.entry(a).or_insert(0) += 1,
                None => return fail("datagram/unsolicited", "the node sent something to nowhere"),
            }
        }
        let mut t = taken().lock().unwrap_or_else(|e| e.into_inner());
        for (a, k) in to {
            let want = t.remove(&(address.port(), a)).unwrap_or(0);
            ensure!(k <= want, "datagram/unsolicited", "the node sent {} datagrams to {}, {} were called for", k, a, want);
            c.count("sends of nodes explained", k as u64);
        }
        Ok(v)
    }
}

fn client() -> UdpSocket {
    let s = UdpSocket::bind("127.0.0.1:0").expect("client socket");
    s.set_read_timeout(Some(Duration::from_millis(20))).unwrap();
    s
}

/// Sockets at different addresses, of which some have the port of another one or the address of another one.
fn clients(c: &mut Case, n: u64) -> Vec<UdpSocket> {
    let mut v: Vec<UdpSocket> = vec![];
    for _ in 0..n {
        let port = if !v.is_empty() && c.rng.chance(1, 2) { c.rng.pick(&v).local_addr().unwrap().port() } else { 0 };
        let b = c.rng.bytes(3);
        let ip = *c.rng.pick(&[[127, 0, 0, 1], [127, 0, 0, 2], [127, 1, 0, 0], [127, b[0] & 127, b[1], b[2]]]);
        // taken, or the broadcast address
        let s = UdpSocket::bind(SocketAddr::from((ip, port))).unwrap_or_else(|_| client());
        s.set_read_timeout(Some(Duration::from_millis(20))).unwrap();
        if v.iter().any(|o| o.local_addr().unwrap().port() == s.local_addr().unwrap().port()) {
            c.count("sockets that share a port", 1);
        }
        v.push(s);
    }
    v
}

fn content(c: &mut Case, n: usize) -> Vec<u8> {
    c.rng.hostile(n)
}

fn some_size(c: &mut Case, max: usize) -> usize {
    match c.rng.below(10) {
        0..=4 => SIZE,
        5 => *c.rng.pick(&[0usize, 1, 15, 16, 17, 1119, 1120]),
        6 => SIZE - 1 - c.rng.below(3) as usize,
        7 => SIZE + 1 + c.rng.below(3) as usize,
        8 => (SIZE * c.rng.range(2, 50) as usize).min(max),
        _ => c.rng.below(max as u64 + 1) as usize,
    }
}

fn check_event(c: &mut Case, got: &Ev, from: SocketAddr, n: usize) -> Res {
    if n == SIZE {
        match got {
            Ev::Info(t) if t.contains(&from.to_string()) => {}
            e => return fail("datagram/full-size", format!("datagram of {} bytes from {} was reported as {:?}", n, from, e)),
        }
        c.count("full size processed", 1);
    } else {
        match got {
            Ev::Frame(a, l) if *a == from && *l == n => {}
            e => return fail("datagram/wrong-size", format!("datagram of {} bytes from {} was reported as {:?}", n, from, e)),
        }
        c.count("wrong size reported", 1);
    }
    c.count("datagrams accounted for", 1);
    Ok(())
}

// ------------------------------------------------------------------ U01
pub fn accounting(c: &mut Case) -> Res {
    let n = spawn(c)?;
    let k = c.rng.range(1, 4);
    let clients = clients(c, k);
    let total = c.rng.range(10, 60);
    let window = c.rng.range(1, 12) as usize;
    let mut outstanding: std::collections::VecDeque<(SocketAddr, usize)> = Default::default();
    let mut fp = vec![];
    for _ in 0..total {
        let s = c.rng.pick(&clients);
        let from = s.local_addr().unwrap();
        let l = some_size(c, 65507);
        let b = content(c, l);
        fp.extend_from_slice(&mon::fnv(&b).to_le_bytes());
        let s = clients.iter().find(|s| s.local_addr().unwrap() == from).unwrap();
        s.send_to(&b, n.address).expect("send");
        outstanding.push_back((from, l));
        while outstanding.len() >= window || outstanding.iter().map(|o| o.1 + 1500).sum::<usize>() > 70_000 {
            let (a, l) = outstanding.pop_front().unwrap();
            let e = n.next()?;
            check_event(c, &e, a, l)?;
            if outstanding.is_empty() {
                break;
            }
        }
    }
    while let Some((a, l)) = outstanding.pop_front() {
        let e = n.next()?;
        check_event(c, &e, a, l)?;
    }
    c.distinct(&fp);
    c.sample(|| format!("{} datagrams from {} sockets, window {}", total, clients.len(), window));
    n.no_more(5)?;
    for s in &clients {
        let mut b = [0; 2000];
        ensure!(s.recv_from(&mut b).is_err(), "datagram/unsolicited", "the node answered without having been told to dial");
    }
    let rest = n.stop(c)?;
    ensure!(rest.is_empty(), "event/unexpected", "{:?}", rest);
    Ok(())
}

fn text_of(errno: i32) -> String {
    std::io::Error::from_raw_os_error(errno).to_string()
}

/// Waiting and receiving fail now and then. Each failure is reported as what it is, and no datagram
/// is lost, doubled or moved by it.
pub fn faulty(c: &mut Case) -> Res {
    let n = spawn(c)?;
    let k = c.rng.range(1, 4);
    let clients = clients(c, k);
    let mut plans: Vec<(inject::Guard, i32)> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut h = String::new();
    let mut fp = vec![];
    for _ in 0..c.rng.range(4, 16) {
        if c.rng.chance(1, 2) {
            let (call, e) = match c.rng.below(3) {
                0 => (inject::Call::Poll, *c.rng.pick(&[libc::ENOMEM, libc::EIO, libc::EINTR])),
                _ => (
                    inject::Call::RecvFrom,
                    *c.rng.pick(&[libc::ENOMEM, libc::ENOBUFS, libc::EIO, libc::ECONNREFUSED, libc::EHOSTUNREACH, libc::ENETDOWN, libc::EINTR, libc::EAGAIN]),
                ),
            };
            let (skip, times) = (c.rng.below(4) as usize, c.rng.range(1, 4) as usize);
            h.push_str(&format!("{:?}+{}x{}:{} ", call, skip, times, e));
            plans.push((inject::fail(call, n.address.port(), skip, times, e, None), e));
        }
        let mut sent = vec![];
        for _ in 0..c.rng.range(1, 5) {
            let s = c.rng.pick(&clients);
            let from = s.local_addr().unwrap();
            let l = some_size(c, 9_000);
            let b = content(c, l);
            fp.extend_from_slice(&mon::fnv(&b).to_le_bytes());
            let s = clients.iter().find(|s| s.local_addr().unwrap() == from).unwrap();
            s.send_to(&b, n.address).expect("send");
            sent.push((from, l));
        }
        for (from, l) in sent {
            loop {
                match n.next()? {
                    Ev::Read(e) => errors.push(e),
                    e => {
                        check_event(c, &e, from, l)?;
                        break;
                    }
                }
            }
        }
    }
    ensure!(!n.events.try_iter().any(|e| match e {
        Ev::Read(t) => {
            errors.push(t);
            false
        }
        _ => true,
    }), "event/unexpected", "after {}", h);
    // what is left of the plans may happen while it ends
    for e in n.stop(c)? {
        match e {
            Ev::Read(t) => errors.push(t),
            e => return fail("event/unexpected", format!("{:?} after {}", e, h)),
        }
    }
    let mut want: HashMap<String, (usize, bool)> = HashMap::new();
    for (p, e) in &plans {
        // a wait that is interrupted, or finds nothing, need not be reported
        let w = want.entry(text_of(*e)).or_insert((0, matches!(*e, libc::EINTR | libc::EAGAIN)));
        w.0 += p.failed();
        c.count("failed waits and reads", p.failed() as u64);
    }
    for (t, (k, may)) in want {
        let got = errors.iter().filter(|e| **e == t).count();
        ensure!(got == k || may && got < k, "event/read-error", "{} reads failed with \"{}\", {} were reported: {}", k, t, got, h);
        errors.retain(|e| *e != t);
    }
    ensure!(errors.is_empty(), "event/read-error", "reported but not happened: {:?}: {}", errors, h);
    fp.extend_from_slice(h.as_bytes());
    c.distinct(&fp);
    c.sample(|| h.clone());
    Ok(())
}

/// Opening the node fails at one of its system calls: that is what the caller is told, and nothing
/// is left behind.
pub fn start_fails(c: &mut Case) -> Res {
    let (pass, errno) = (c.rng.below(4), *c.rng.pick(&[libc::EMFILE, libc::ENFILE, libc::ENOMEM, libc::ENOBUFS, libc::EACCES, libc::EPERM, libc::EADDRINUSE, libc::EADDRNOTAVAIL, libc::ENOSPC, libc::EINVAL]));
    for _ in 0..100 {
        let port = mon::free_port();
        let (pk, sk) = keys(c);
        let running = Arc::new(AtomicBool::new(true));
        let r = running.clone();
        let (node, hit) = inject::opening(pass, errno, || c.guard("spawn", || Node::spawn(sk, pk, port, r)));
        match (node?, hit) {
            (Err(e), true) => {
                if e.raw_os_error() != Some(errno) {
                    return fail("spawn/cause", format!("call {} failed with errno {}, the start with {:?}", pass, errno, e));
                }
                ensure!(until(Duration::from_secs(5), || UdpSocket::bind(("0.0.0.0", port)).is_ok()), "spawn/port-held", "the start failed with {:?} and holds its port", e);
                c.count("failed starts", 1);
            }
            // the port was taken by somebody else
            (Err(_), false) => continue,
            (Ok((node, node_ref)), hit) => {
                // no such call, or it could do without
                let (s, k) = (client(), c.rng.below(50) as usize);
                s.send_to(&content(c, k), ("127.0.0.1", port)).expect("send");
                ensure!(until(LONG, || matches!(node_ref.try_recv(), Ok(Some(_)))), "spawn/unusable", "the node started although call {} failed with {} ({}), and does not serve", pass, errno, hit);
                running.store(false, Ordering::Release);
                match timed(move || node.join()) {
                    Some(Some(_)) => {}
                    other => return fail("shutdown/stuck", format!("{:?}", other.map(|_| "panicked"))),
                }
            }
        }
        no_panics()?;
        c.distinct(format!("{} {}", pass, errno).as_bytes());
        return Ok(());
    }
    fail("spawn/failed", "no port could be bound in 100 attempts")
}

/// The answer to a dial cannot be sent: that is reported, with its cause, and concerns nothing else.
pub fn unsendable(c: &mut Case) -> Res {
    let n = spawn(c)?;
    let mut h = String::new();
    for _ in 0..c.rng.range(2, 8) {
        let s = client();
        let at = s.local_addr().unwrap();
        let (a, b) = (identity(c), client());
        c.guard("command", || n.node.command(Command::Connect { peer_pi: a, address: at }))?;
        if c.rng.chance(1, 3) {
            h.push_str("sent ");
            s.send_to(&content(c, SIZE), n.address).expect("send");
            let e = n.next()?;
            check_event(c, &e, at, SIZE)?;
            take_handshake(c, &s, n.address, None)?;
            continue;
        }
        let e = *c.rng.pick(&[libc::EPERM, libc::EACCES, libc::ENETUNREACH, libc::EHOSTUNREACH, libc::ENOBUFS, libc::ENOMEM, libc::EINVAL, libc::EMSGSIZE, libc::EIO, libc::ENETDOWN]);
        h.push_str(&format!("fails:{} ", e));
        let p = inject::fail(inject::Call::SendTo, n.address.port(), 0, 1, e, None);
        s.send_to(&content(c, SIZE), n.address).expect("send");
        let mut x = [0; 2000];
        if until(LONG, || p.calls() > 0 || s.recv_from(&mut x).is_ok()) && p.calls() == 0 {
            // sent by another system call, which is as good
            take(n.address.port(), at);
            n.stop(c)?;
            return Ok(());
        }
        // the report and the datagram's own event, in whatever order
        let (mut reports, mut own) = (0, 0);
        while own == 0 || reports == 0 {
            match n.next()? {
                Ev::Write(x, t) => {
                    ensure!(x == at && t == text_of(e), "event/write-error", "sending to {} failed with \"{}\", reported: {} \"{}\"", at, text_of(e), x, t);
                    reports += 1;
                }
                x => {
                    check_event(c, &x, at, SIZE)?;
                    own += 1;
                }
            }
        }
        n.no_more(3)?;
        ensure!(p.failed() == 1, "event/write-error", "a send that did not fail was reported: {}", h);
        // the failed one counts as called for
        take(n.address.port(), at);
        drop(p);
        c.count("failed sends reported", 1);
        // nobody else is concerned
        b.send_to(&content(c, SIZE), n.address).expect("send");
        let x = n.next()?;
        check_event(c, &x, b.local_addr().unwrap(), SIZE)?;
    }
    let _ = establish(c, &n, 1)?;
    c.count("liveness confirmed", 1);
    c.distinct(h.as_bytes());
    c.sample(|| h.clone());
    let rest = n.stop(c)?;
    ensure!(rest.is_empty(), "event/unexpected", "{:?}", rest);
    Ok(())
}

/// One node for a very long time: nothing may depend on how many datagrams there have been.
pub fn marathon(c: &mut Case) -> Res {
    let n = spawn(c)?;
    let s = client();
    let from = s.local_addr().unwrap();
    // of either kind
    let total = 132_000 + c.rng.below(2_000);
    let mut outstanding: std::collections::VecDeque<usize> = Default::default();
    for i in 0..total {
        let l = if i % 2 == 0 { SIZE } else { c.rng.below(60) as usize };
        let b = content(c, l);
        s.send_to(&b, n.address).expect("send");
        outstanding.push_back(l);
        if outstanding.len() >= 32 {
            while let Some(l) = outstanding.pop_front() {
                let e = n.next()?;
                check_event(c, &e, from, l)?;
            }
        }
    }
    while let Some(l) = outstanding.pop_front() {
        let e = n.next()?;
        check_event(c, &e, from, l)?;
    }
    c.count("datagrams to one node", total);
    c.distinct(format!("{} {}", total, c.index).as_bytes());
    c.sample(|| format!("{} datagrams from one socket to one node", total));
    n.no_more(5)?;
    let rest = n.stop(c)?;
    ensure!(rest.is_empty(), "event/unexpected", "{:?}", rest);
    Ok(())
}

pub fn concurrent(c: &mut Case) -> Res {
    let n = spawn(c)?;
    let k = c.rng.range(2, 3) as usize;
    let mut plans: Vec<(Vec<Vec<u8>>, ())> = vec![];
    for _ in 0..k {
        let m = c.rng.range(5, 20);
        let v = (0..m)
            .map(|_| {
                let l = some_size(c, 1500);
                let l = l.min(1500);
                content(c, l)
            })
            .collect();
        plans.push((v, ()));
    }
    let plans: Vec<(UdpSocket, Vec<Vec<u8>>)> = clients(c, k as u64).into_iter().zip(plans.into_iter().map(|p| p.0)).collect();
    c.distinct(&plans.iter().flat_map(|p| p.1.iter().flat_map(|b| mon::fnv(b).to_le_bytes())).collect::<Vec<_>>());
    let mut want: HashMap<SocketAddr, std::collections::VecDeque<usize>> =
        plans.iter().map(|p| (p.0.local_addr().unwrap(), p.1.iter().map(|b| b.len()).collect())).collect();
    let total: usize = plans.iter().map(|p| p.1.len()).sum();
    std::thread::scope(|s| {
        for (sock, v) in &plans {
            let to = n.address;
            s.spawn(move || {
                for b in v {
                    sock.send_to(b, to).expect("send");
                }
            });
        }
    });
    for _ in 0..total {
        let e = match n.events.recv_timeout(LONG) {
            Ok(e) => e,
            Err(_) if kernel_drops(n.address.port()) > 0 => {
                c.count("kernel dropped datagrams", 1);
                n.stop(c)?;
                return Ok(());
            }
            Err(_) => return fail("event/missing", "a datagram was not reported"),
        };
        let from = match &e {
            Ev::Frame(a, _) => *a,
            Ev::Info(t) => match want.keys().find(|a| t.contains(&a.to_string())) {
                Some(a) => *a,
                None => return fail("event/unexpected", t.clone()),
            },
            e => return fail("event/unexpected", format!("{:?}", e)),
        };
        let Some(l) = want.get_mut(&from).and_then(|q| q.pop_front()) else {
            return fail("event/duplicate", format!("{:?}", e));
        };
        check_event(c, &e, from, l)?;
    }
    n.no_more(5)?;
    let rest = n.stop(c)?;
    ensure!(rest.is_empty(), "event/unexpected", "{:?}", rest);
    Ok(())
}

// ------------------------------------------------------------------ U02
fn seen() -> &'static Mutex<HashSet<u64>> {
    static S: OnceLock<Mutex<HashSet<u64>>> = OnceLock::new();
    S.get_or_init(Default::default)
}

/// What the handshake datagrams of the whole run had in common: whichever bytes never changed, and
/// how often each byte value occurred in the padding.
struct Spread {
    n: u64,
    first: Vec<u8>,
    varied: Vec<bool>,
    values: [u64; 256],
}

/// Fresh random bytes at every position: after 64 datagrams, no position may have shown one value
/// only, and no byte value may be missing in the padding (10240 bytes; by chance below 10^-14).
fn spread(b: &[u8]) -> Res {
    static S: OnceLock<Mutex<Spread>> = OnceLock::new();
    let s = S.get_or_init(|| Mutex::new(Spread { n: 0, first: b.to_vec(), varied: vec![false; SIZE], values: [0; 256] }));
    let mut g = s.lock().unwrap();
    g.n += 1;
    for i in 0..SIZE {
        if b[i] != g.first[i] {
            g.varied[i] = true;
        }
    }
    for x in &b[1120..] {
        g.values[*x as usize] += 1;
    }
    if g.n >= 64 {
        if let Some(i) = g.varied.iter().position(|v| !*v) {
            return fail("dial/constant-byte", format!("byte {} was {:#04x} in all of {} handshake datagrams", i, g.first[i], g.n));
        }
        if let Some(i) = g.values.iter().position(|v| *v == 0) {
            return fail("dial/padding", format!("none of the padding bytes of {} handshake datagrams was {:#04x}", g.n, i));
        }
    }
    Ok(())
}

/// Expect exactly one first handshake message on this socket.
fn take_handshake(c: &mut Case, s: &UdpSocket, node: SocketAddr, peer: Option<&(PublicKey, vru_session::handshake::SecretKey)>) -> Res<Vec<u8>> {
    let mut b = [0u8; 4000];
    let t = Instant::now();
    let (l, from) = loop {
        match s.recv_from(&mut b) {
            Ok(v) => break v,
            Err(_) if t.elapsed() < LONG => continue,
            Err(_) => return fail("dial/no-handshake", "a dialled address sent a datagram but got no handshake message"),
        }
    };
    take(node.port(), s.local_addr().unwrap());
    ensure!(from == node, "dial/source", "handshake came from {} instead of {}", from, node);
    ensure!(l == SIZE, "dial/size", "handshake datagram of {} bytes", l);
    let b = &b[..l];
    type L = <xx::Message0 as LineValid>::Length;
    let m0 = xx::Message0::clone_array(GenericArray::<u8, L>::from_slice(&b[..1120]));
    ensure!(models::session::decodable(&b[..32]), "dial/message", "the message starts with {} which is no point", hexs(&b[..32]));
    let Concat(e, _) = &m0;
    ensure!(e.iter().any(|x| *x != 0), "dial/message", "zero ephemeral");
    ensure!(b[32..1120].iter().filter(|x| **x != 0).count() > 900, "dial/message", "ephemeral lattice key is missing");
    ensure!(b[1120..].iter().filter(|x| **x != 0).count() > 120, "dial/padding", "the padding is not random: {}", hexs(&b[1120..]));
    {
        let mut g = seen().lock().unwrap();
        for part in [&b[..32], &b[32..1120], &b[1120..]] {
            ensure!(g.insert(mon::fnv(part)), "dial/reused-randomness", "two handshake datagrams share {}", hexs(part));
        }
    }
    spread(b)?;
    if let Some((pk, sk)) = peer {
        // the dialled peer can process it
        let seed = GenericArray::from_slice(&c.rng.bytes(128)).clone();
        let pi = pk.identity();
        c.guard("take0_out1", || {
            let (_, _) = xx::take0_out1::<rac::Array<rac::generic_array::typenum::U0>>(
                &Line::clone_array(&seed),
                &pi,
                pk,
                sk,
                m0,
                Default::default(),
            );
        })?;
    }
    let mut x = [0u8; 4000];
    ensure!(s.recv_from(&mut x).is_err(), "dial/repeated-handshake", "more than one datagram was sent for one dial");
    c.count("handshakes received", 1);
    Ok(b.to_vec())
}

pub fn dial(c: &mut Case) -> Res {
    let n = spawn(c)?;
    let peers: Vec<_> = (0..3).map(|_| keys(c)).collect();
    let k = c.rng.range(1, 4);
    let clients = clients(c, k);
    let addr: Vec<SocketAddr> = clients.iter().map(|s| s.local_addr().unwrap()).collect();
    let mut pending: HashMap<usize, usize> = HashMap::new();
    let steps = c.rng.range(6, 30);
    let mut history = String::new();
    let mut received: Vec<Vec<u8>> = vec![];
    for _ in 0..steps {
        let i = c.rng.below(clients.len() as u64) as usize;
        match c.rng.below(8) {
            0..=2 => {
                let j = c.rng.below(3) as usize;
                history.push_str(&format!("C{}{} ", i, j));
                let cmd = Command::Connect { peer_pi: peers[j].0.identity(), address: addr[i] };
                c.guard("command", || n.node.command(cmd))?;
                if pending.contains_key(&i) {
                    match n.next()? {
                        Ev::Failed(a) if a == addr[i] => c.count("duplicate dial refused", 1),
                        e => return fail("dial/duplicate", format!("second dial of {} was answered with {:?}", addr[i], e)),
                    }
                } else {
                    pending.insert(i, j);
                    c.count("dials", 1);
                }
            }
            3..=6 => {
                history.push_str(&format!("D{} ", i));
                let b = match c.rng.below(4) {
                    // what the node has sent itself, here or to somebody else, whole or in part
                    0 if !received.is_empty() => {
                        let mut b = c.rng.pick(&received).clone();
                        let k = *c.rng.pick(&[0, 0, 1, 16, 32, 1120, 1264]);
                        for x in b[k..].iter_mut().filter(|_| k > 0) {
                            *x = c.rng.u8();
                        }
                        c.count("reflected datagrams", 1);
                        b
                    }
                    _ => content(c, SIZE),
                };
                clients[i].send_to(&b, n.address).expect("send");
                let was = pending.remove(&i);
                let e = n.next()?;
                check_event(c, &e, addr[i], SIZE)?;
                if let Some(j) = was {
                    received.push(take_handshake(c, &clients[i], n.address, Some(&peers[j]))?);
                }
            }
            _ => {
                let l = loop {
                    let l = some_size(c, 5000);
                    if l != SIZE {
                        break l;
                    }
                };
                history.push_str(&format!("W{} ", i));
                clients[i].send_to(&content(c, l), n.address).expect("send");
                let e = n.next()?;
                check_event(c, &e, addr[i], l)?;
            }
        }
        if c.rng.chance(1, 3) {
            let mut x = [0u8; 2000];
            ensure!(clients[i].recv_from(&mut x).is_err(), "dial/unsolicited", "unexpected datagram to {} after {}", addr[i], history);
        }
    }
    // the rest of the dials in one batch, concurrently
    let rest: Vec<(usize, usize)> = pending.drain().collect();
    for (i, _) in &rest {
        clients[*i].send_to(&content(c, SIZE), n.address).expect("send");
    }
    let mut left: Vec<SocketAddr> = rest.iter().map(|(i, _)| addr[*i]).collect();
    while !left.is_empty() {
        match n.next()? {
            Ev::Info(t) => match left.iter().position(|a| t.contains(&a.to_string())) {
                Some(p) => {
                    left.remove(p);
                }
                None => return fail("event/unexpected", t),
            },
            e => return fail("event/unexpected", format!("{:?}", e)),
        }
    }
    for (i, j) in &rest {
        take_handshake(c, &clients[*i], n.address, Some(&peers[*j]))?;
    }
    n.no_more(5)?;
    c.distinct(format!("{} {:?}", history, rest).as_bytes());
    c.sample(|| format!("C=dial D=datagram W=wrong size: {}", history));
    for s in &clients {
        let mut x = [0u8; 2000];
        ensure!(s.recv_from(&mut x).is_err(), "dial/unsolicited", "unexpected datagram at the end of {}", history);
    }
    let rest = n.stop(c)?;
    ensure!(rest.is_empty(), "event/unexpected", "{:?}", rest);
    Ok(())
}

/// One node, many dials one after the other and many at once.
pub fn many(c: &mut Case) -> Res {
    let k = c.rng.range(40, 100);
    let batch = c.rng.chance(1, 2);
    dials(c, k, batch)
}

/// More dials than a byte can count.
pub fn very_many(c: &mut Case) -> Res {
    let k = c.rng.range(320, 400);
    dials(c, k, false)
}

fn dials(c: &mut Case, k: u64, batch: bool) -> Res {
    let n = spawn(c)?;
    let peer = keys(c);
    let mut socks: Vec<UdpSocket> = vec![];
    for i in 0..k {
        let s = if i > 0 && c.rng.chance(1, 8) {
            // an address dialled before
            let j = c.rng.below(socks.len() as u64) as usize;
            socks[j].try_clone().expect("clone")
        } else {
            client()
        };
        let pi = if c.rng.chance(1, 4) { peer.0.identity() } else { identity(c) };
        let a = s.local_addr().unwrap();
        if !batch || !socks.iter().any(|o| o.local_addr().unwrap() == a) {
            c.guard("command", || n.node.command(Command::Connect { peer_pi: pi, address: a }))?;
            if !batch {
                s.send_to(&content(c, SIZE), n.address).expect("send");
                let e = n.next()?;
                check_event(c, &e, a, SIZE)?;
                take_handshake(c, &s, n.address, None)?;
            }
            socks.push(s);
            c.count("dials of one node", 1);
        }
    }
    if batch {
        for s in &socks {
            s.send_to(&content(c, SIZE), n.address).expect("send");
            let e = n.next()?;
            check_event(c, &e, s.local_addr().unwrap(), SIZE)?;
        }
        for s in &socks {
            take_handshake(c, s, n.address, None)?;
        }
    }
    c.distinct(format!("{} {} {}", k, batch, c.index).as_bytes());
    no_panics()?;
    let rest = n.stop(c)?;
    // reports of the workers may still have been on their way
    ensure!(rest.iter().all(|e| matches!(e, Ev::Info(_))), "event/unexpected", "{:?}", rest);
    Ok(())
}

/// Bytes the kernel still holds for this socket.
fn queued(port: u16) -> u64 {
    let t = std::fs::read_to_string("/proc/self/net/udp").unwrap_or_default();
    let want = format!(":{:04X}", port);
    t.lines()
        .filter(|l| l.split_whitespace().nth(1).is_some_and(|a| a.ends_with(&want)))
        .filter_map(|l| u64::from_str_radix(l.split_whitespace().nth(4)?.split(':').nth(1)?, 16).ok())
        .sum()
}

/// Send many datagrams nobody reads the events of; returns what was sent.
/// A node that does not keep up is not an error here, the sender just gives up.
fn pile_up(c: &mut Case, n: &N, total: u64) -> Vec<(SocketAddr, usize)> {
    let s = client();
    let from = s.local_addr().unwrap();
    let mut sent = vec![];
    for i in 0..total {
        let l = if c.rng.chance(1, 8) { SIZE } else { c.rng.below(40) as usize };
        s.send_to(&content(c, l), n.address).expect("send");
        sent.push((from, l));
        if i % 48 == 47 && !until(Duration::from_secs(5), || queued(n.address.port()) == 0) {
            break;
        }
    }
    until(Duration::from_secs(5), || queued(n.address.port()) == 0);
    sent
}

/// The owner reads no event before thousands of datagrams have arrived.
pub fn backlog(c: &mut Case) -> Res {
    let n = spawn_reader(c, Reader::Waits)?;
    let total = *c.rng.pick(&[500u64, 1100, 2200, 4400, 9000]);
    let sent = pile_up(c, &n, total);
    n.reading.store(true, Ordering::Release);
    if kernel_drops(n.address.port()) > 0 {
        // not the node's doing unless it never took them, which the shutdown check looks at
        c.count("backlogs with kernel drops", 1);
        n.stop(c)?;
        return Ok(());
    }
    for (a, l) in &sent {
        let e = n.next()?;
        check_event(c, &e, *a, *l)?;
    }
    c.count("backlogged datagrams", sent.len() as u64);
    n.no_more(5)?;
    c.distinct(format!("{} {}", total, c.index).as_bytes());
    c.sample(|| format!("{} datagrams before the first event is read", sent.len()));
    let rest = n.stop(c)?;
    ensure!(rest.is_empty(), "event/unexpected", "{:?}", rest);
    Ok(())
}

/// Stopping a node whose owner does not read its events, or has dropped the stream.
pub fn shutdown_unread(c: &mut Case) -> Res {
    let drops = c.index % 2 == 0;
    let n = spawn_reader(c, if drops { Reader::Drops } else { Reader::Waits })?;
    let port = n.address.port();
    let dials = c.rng.below(4);
    let mut socks = vec![];
    for _ in 0..dials {
        let s = client();
        let pi = identity(c);
        let a = s.local_addr().unwrap();
        for _ in 0..c.rng.range(1, 2) {
            let cmd = Command::Connect { peer_pi: pi.clone(), address: a };
            c.guard("command", || n.node.command(cmd))?;
        }
        s.send_to(&content(c, SIZE), n.address).expect("send");
        take_handshake(c, &s, n.address, None)?;
        let cmd = Command::Local { destination: pi, command: LocalCommand::SendText("unread".into()) };
        c.guard("command", || n.node.command(cmd))?;
        socks.push(s);
    }
    let total = *c.rng.pick(&[0u64, 1, 20, 1100, 4400]);
    let sent = pile_up(c, &n, total);
    // it still serves: a dial goes through
    let s = client();
    let pi = identity(c);
    c.guard("command", || n.node.command(Command::Connect { peer_pi: pi, address: s.local_addr().unwrap() }))?;
    s.send_to(&content(c, SIZE), n.address).expect("send");
    take_handshake(c, &s, n.address, None)?;
    no_panics()?;
    c.count(if drops { "stops with the events dropped" } else { "stops with events unread" }, 1);
    c.count("unread events", sent.len() as u64);
    c.distinct(format!("{} {} {} {}", drops, dials, total, c.index).as_bytes());
    c.sample(|| format!("events {}, {} dials, {} datagrams", if drops { "dropped" } else { "unread" }, dials, sent.len()));
    let rest = n.stop(c)?;
    ensure!(rest.iter().all(|e| matches!(e, Ev::Info(_) | Ev::Frame(..) | Ev::Failed(_))), "event/unexpected", "{:?}", rest);
    ensure!(
        UdpSocket::bind(("0.0.0.0", port)).is_ok(),
        "shutdown/port-held",
        "port {} is still bound after the node was joined",
        port
    );
    c.count("ports bound again", 1);
    Ok(())
}

// ------------------------------------------------------------------ U03
fn establish(c: &mut Case, n: &N, k: u64) -> Res<(Vec<UdpSocket>, Vec<Identity>)> {
    let mut v = vec![];
    let mut ids = vec![];
    for _ in 0..k {
        let s = client();
        let pi = identity(c);
        c.guard("command", || n.node.command(Command::Connect { peer_pi: pi.clone(), address: s.local_addr().unwrap() }))?;
        s.send_to(&content(c, SIZE), n.address).expect("send");
        let e = n.next()?;
        check_event(c, &e, s.local_addr().unwrap(), SIZE)?;
        take_handshake(c, &s, n.address, None)?;
        v.push(s);
        ids.push(pi);
    }
    Ok((v, ids))
}

pub fn shutdown(c: &mut Case, interrupted: bool) -> Res {
    let n = spawn(c)?;
    let port = n.address.port();
    let state = if interrupted { 6 } else { c.index % 6 };
    // the port is taken while the node lives
    let (pk, sk) = keys(c);
    let second = c.guard("spawn", || Node::spawn(sk, pk, port, Arc::new(AtomicBool::new(false))))?;
    match second {
        Err(_) => c.count("taken port refused", 1),
        Ok((second, _)) => {
            let _ = timed(move || second.join());
            return fail("spawn/taken-port", "two nodes on one port");
        }
    }
    let mut load = 0;
    let noise = Arc::new(AtomicBool::new(true));
    match state {
        0 => {}
        1 => {
            let s = client();
            load = c.rng.range(1, 20);
            for _ in 0..load {
                let l = some_size(c, 3000);
                s.send_to(&content(c, l), n.address).expect("send");
                let e = n.next()?;
                check_event(c, &e, s.local_addr().unwrap(), l)?;
            }
        }
        2 => {
            load = c.rng.range(1, 6);
            let _ = establish(c, &n, load)?;
        }
        3 => {
            load = c.rng.range(1, 10);
            let base = 1 + c.rng.below(65000) as u16;
            for i in 0..load {
                let pi = identity(c);
                let p = base + i as u16;
                c.guard("command", || n.node.command(Command::Connect { peer_pi: pi, address: ([127, 0, 0, 1], p).into() }))?;
            }
        }
        4 => {
            // a connection exists and datagrams keep arriving while it stops
            load = c.rng.below(4);
            let _ = establish(c, &n, load)?;
            let (to, noise) = (n.address, noise.clone());
            let sizes: Vec<usize> = (0..16).map(|_| some_size(c, 1400).min(1400)).collect();
            std::thread::spawn(move || {
                let s = client();
                let t = Instant::now();
                while noise.load(Ordering::Acquire) && t.elapsed() < LONG {
                    for l in &sizes {
                        let _ = s.send_to(&vec![7; *l], to);
                    }
                    std::thread::sleep(Duration::from_millis(2));
                }
            });
            std::thread::sleep(Duration::from_millis(c.rng.below(30)));
        }
        5 => {
            load = c.rng.range(1, 4);
            let (_s, ids) = establish(c, &n, load)?;
            for pi in ids {
                for _ in 0..c.rng.range(1, 3) {
                    let cmd = Command::Local { destination: pi.clone(), command: LocalCommand::SendText("x".into()) };
                    c.guard("command", || n.node.command(cmd))?;
                }
            }
        }
        _ => {
            for _ in 0..c.rng.range(1, 10) {
                load += interrupt_nodes();
                std::thread::sleep(Duration::from_millis(c.rng.below(20)));
            }
            c.count("interruptions", load);
            // still alive
            let s = client();
            s.send_to(&content(c, SIZE), n.address).expect("send");
            let e = n.next()?;
            check_event(c, &e, s.local_addr().unwrap(), SIZE)?;
        }
    }
    c.distinct(format!("{} {} {}", state, load, c.index).as_bytes());
    c.sample(|| format!("state {} load {}", state, load));
    let r = n.stop(c);
    noise.store(false, Ordering::Release);
    let rest = r?;
    if state != 4 {
        ensure!(rest.is_empty(), "event/unexpected", "{:?}", rest);
    } else {
        ensure!(rest.iter().all(|e| matches!(e, Ev::Info(_) | Ev::Frame(..))), "event/unexpected", "{:?}", rest);
    }
    // the port is free again
    ensure!(
        UdpSocket::bind(("0.0.0.0", port)).is_ok(),
        "shutdown/port-held",
        "port {} is still bound after the node was joined",
        port
    );
    c.count("ports bound again", 1);
    Ok(())
}

/// Nothing of a stopped node stays behind in the process: no thread, no open file.
pub fn leftovers(c: &mut Case) -> Res {
    ensure!(until(LONG, || crate::node_threads() == 0), "shutdown/leftover-thread", "{} threads of stopped nodes", crate::node_threads());
    let before = crate::open_files();
    let mut nodes = vec![];
    for i in 0..c.rng.range(10, 30) {
        let n = spawn(c)?;
        {
            let _socks = establish(c, &n, i % 3)?;
        }
        nodes.push(n);
    }
    for n in &nodes {
        n.running.store(false, Ordering::Release);
    }
    for n in nodes {
        n.stop(c)?;
    }
    ensure!(until(LONG, || crate::node_threads() == 0), "shutdown/leftover-thread", "{} threads of stopped nodes", crate::node_threads());
    ensure!(until(Duration::from_secs(10), || crate::open_files() <= before), "shutdown/leftover-file", "{} open files before, {} after", before, crate::open_files());
    c.count("processes found clean", 1);
    c.distinct(&c.index.to_le_bytes());
    c.sample(|| format!("{} files open", before));
    Ok(())
}

/// Left alone for a while, again and again, a node is still there and has forgotten nothing.
pub fn idle(c: &mut Case) -> Res {
    let n = spawn(c)?;
    let s = client();
    let from = s.local_addr().unwrap();
    let mut history = String::new();
    let mut waited = 0;
    let mut pending: Option<(PublicKey, vru_session::handshake::SecretKey)> = None;
    let (mut socks, ids) = establish(c, &n, c.index % 3)?;
    for round in 0..3 {
        if pending.is_none() && c.rng.chance(2, 3) {
            let peer = keys(c);
            let cmd = Command::Connect { peer_pi: peer.0.identity(), address: from };
            c.guard("command", || n.node.command(cmd))?;
            pending = Some(peer);
            history.push_str("dial ");
        }
        let ms = match (round, c.index % 8) {
            (1, 0) => c.rng.range(9_000, 12_000),
            (1, _) => c.rng.range(2_050, 5_500),
            _ => c.rng.below(2_500),
        };
        std::thread::sleep(Duration::from_millis(ms));
        waited += ms;
        history.push_str(&format!("{}ms ", ms));
        if let Ok(e) = n.events.try_recv() {
            return fail("event/unexpected", format!("{:?} after {}", e, history));
        }
        if pending.is_some() && c.rng.chance(1, 2) {
            // still known
            let cmd = Command::Connect { peer_pi: identity(c), address: from };
            c.guard("command", || n.node.command(cmd))?;
            match n.next()? {
                Ev::Failed(a) if a == from => {}
                e => return fail("dial/duplicate", format!("second dial of {} was answered with {:?} after {}", from, e, history)),
            }
        }
        if let Some(pi) = ids.first() {
            let cmd = Command::Local { destination: pi.clone(), command: LocalCommand::SendText("x".into()) };
            c.guard("command", || n.node.command(cmd))?;
        }
        if let Some(p) = socks.first_mut() {
            let l = some_size(c, 3000);
            p.send_to(&content(c, l), n.address).expect("send");
            let e = n.next()?;
            check_event(c, &e, p.local_addr().unwrap(), l)?;
        }
        if c.rng.chance(2, 3) {
            s.send_to(&content(c, SIZE), n.address).expect("send");
            let e = n.next()?;
            check_event(c, &e, from, SIZE)?;
            history.push_str("full ");
            if let Some(peer) = pending.take() {
                take_handshake(c, &s, n.address, Some(&peer))?;
                c.count("handshakes received", 1);
            }
        } else {
            let l = loop {
                let l = some_size(c, 1200);
                if l != SIZE {
                    break l;
                }
            };
            s.send_to(&content(c, l), n.address).expect("send");
            let e = n.next()?;
            check_event(c, &e, from, l)?;
            history.push_str("short ");
        }
        let mut x = [0u8; 2000];
        ensure!(s.recv_from(&mut x).is_err(), "dial/unsolicited", "unexpected datagram after {}", history);
    }
    c.count("seconds left alone", waited / 1000);
    c.distinct(format!("{} {}", history, c.index).as_bytes());
    c.sample(|| history.clone());
    let rest = n.stop(c)?;
    ensure!(rest.is_empty(), "event/unexpected", "{:?}", rest);
    Ok(())
}

/// Nodes to which nothing happens use hardly any processor time.
pub fn rest(c: &mut Case) -> Res {
    let mut nodes = vec![];
    for i in 0..12u64 {
        let n = spawn(c)?;
        match i % 6 {
            0 => {}
            1 => {
                let s = client();
                for _ in 0..3 {
                    let l = some_size(c, 3000);
                    s.send_to(&content(c, l), n.address).expect("send");
                    let e = n.next()?;
                    check_event(c, &e, s.local_addr().unwrap(), l)?;
                }
            }
            2 => {
                // its answer reaches nobody: the kernel reports that later
                let (s, _) = establish(c, &n, 2)?;
                drop(s);
            }
            3 => {
                let (_s, ids) = establish(c, &n, 3)?;
                for pi in ids {
                    let cmd = Command::Local { destination: pi, command: LocalCommand::SendText("x".into()) };
                    c.guard("command", || n.node.command(cmd))?;
                }
            }
            4 => {
                let s = client();
                let address = s.local_addr().unwrap();
                c.guard("command", || n.node.command(Command::Connect { peer_pi: identity_of(7), address }))?;
            }
            _ => {
                interrupt_nodes();
            }
        }
        nodes.push(n);
    }
    crate::at_rest(c)?;
    for n in nodes {
        n.stop(c)?;
    }
    c.distinct(&c.index.to_le_bytes());
    c.sample(|| "twelve nodes in six states".to_string());
    Ok(())
}

// ------------------------------------------------------------------ U04
/// Texts of any length with multi-byte characters at any offset.
fn text(c: &mut Case) -> String {
    let mut t = String::new();
    let n = c.rng.size(300);
    let wide = *c.rng.pick(&["é", "\u{20ac}", "\u{1f980}", "\0", "\n", "\"", "{}", "\u{301}"]);
    if c.rng.chance(1, 2) {
        t.push_str(&"a".repeat(n));
        let k = c.rng.range(1, 100) as usize;
        t.push_str(&wide.repeat(k));
    } else {
        t.push_str(&wide.repeat(n));
    }
    t
}

pub fn commands(c: &mut Case) -> Res {
    let n = spawn(c)?;
    let (socks, ids) = establish(c, &n, c.index % 4)?;
    let mut known = ids.clone();
    known.push(identity(c));
    let mut odd: Vec<SocketAddr> = [
        "0.0.0.0:0",
        "255.255.255.255:9",
        "224.0.0.1:5",
        "[::1]:7",
        "[::]:0",
        "240.0.0.1:1",
        "127.0.0.1:0",
        "10.255.255.1:65535",
        "[2001:db8::1]:80",
        "[::ffff:127.0.0.1]:9",
        "[ff02::1]:5353",
    ]
    .iter()
    .map(|s| s.parse().unwrap())
    .collect();
    let (mut ip, p, flow, scope) = ([0u8; 16], c.rng.u64() as u16, c.rng.u32(), c.rng.u32());
    ip.copy_from_slice(&c.rng.bytes(16));
    odd.push(std::net::SocketAddrV6::new(ip.into(), p, flow, scope).into());
    odd.push(([ip[0], ip[1], ip[2], ip[3]], p).into());
    let mut dialled: HashSet<SocketAddr> = HashSet::new();
    let probe = client();
    let mut h = String::new();
    for _ in 0..c.rng.range(5, 25) {
        match c.rng.below(6) {
            0 => {
                let a = *c.rng.pick(&odd);
                let pi = c.rng.pick(&known).clone();
                h.push_str(&format!("connect {} ", a));
                c.guard("command", || n.node.command(Command::Connect { peer_pi: pi, address: a }))?;
                if !dialled.insert(a) {
                    match n.next()? {
                        Ev::Failed(x) if x == a => {}
                        e => return fail("dial/duplicate", format!("{:?}", e)),
                    }
                }
            }
            1..=3 => {
                let i = c.rng.below(known.len() as u64) as usize;
                let t = text(c);
                h.push_str(&format!("text {:?}.. of {} bytes to {} ", t.chars().take(3).collect::<String>(), t.len(), i));
                let cmd = Command::Local { destination: known[i].clone(), command: LocalCommand::SendText(t) };
                c.guard("command", || {
                    let _ = format!("{:?}", cmd);
                    n.node.command(cmd)
                })?;
                if i < ids.len() {
                    c.count("local commands to a peer", 1);
                }
                if c.rng.chance(1, 2) {
                    std::thread::sleep(Duration::from_millis(1));
                }
            }
            _ => {
                let l = some_size(c, 3000);
                h.push_str(&format!("datagram {} ", l));
                probe.send_to(&content(c, l), n.address).expect("send");
                let e = n.next()?;
                check_event(c, &e, probe.local_addr().unwrap(), l)?;
            }
        }
    }
    // still accepts datagrams and dials
    probe.send_to(&content(c, SIZE), n.address).expect("send");
    let e = n.next()?;
    check_event(c, &e, probe.local_addr().unwrap(), SIZE)?;
    let _ = establish(c, &n, 1)?;
    c.count("liveness confirmed", 1);
    no_panics()?;
    drop(socks);
    c.distinct(h.as_bytes());
    c.sample(|| h.clone());
    if c.index % 16 == 0 {
        // commands to a node that has been told to stop
        n.running.store(false, Ordering::Release);
        probe.send_to(&[0; 10], n.address).expect("send");
        std::thread::sleep(Duration::from_millis(100));
        for pi in &known {
            let cmd = Command::Local { destination: pi.clone(), command: LocalCommand::SendText("late".into()) };
            c.guard("late-command", || n.node.command(cmd))?;
            let cmd = Command::Connect { peer_pi: pi.clone(), address: "127.0.0.1:1".parse().unwrap() };
            c.guard("late-command", || n.node.command(cmd))?;
        }
        c.count("commands after the stop", 2 * known.len() as u64);
    }
    n.stop(c)?;
    Ok(())
}
