use crate::{inject, interrupt_nodes, no_panics, timed, until, LONG};
use mon::{ensure, fail, Case, Res};
use rac::generic_array::GenericArray;
use std::{
    net::{SocketAddr, TcpListener, TcpStream},
    sync::{
        atomic::{AtomicBool, Ordering},
        mpsc, Arc,
    },
    time::Duration,
};
use vru_session::{handshake::PublicKey, Command, Event, Node as _, NodeRef as _};
use vru_tcp::{Node, NodeError};

#[derive(Debug, Clone, PartialEq)]
pub enum Ev {
    Error(Option<i32>),
    Other(String),
    End,
}

struct N {
    node: Node<()>,
    events: mpsc::Receiver<Ev>,
    running: Arc<AtomicBool>,
    address: SocketAddr,
    /// events are read once this is set
    reading: Arc<AtomicBool>,
    deaf: bool,
}

fn keys(c: &mut Case) -> (PublicKey, vru_session::handshake::SecretKey) {
    PublicKey::gen(GenericArray::from_slice(&c.rng.bytes(96)))
}

fn spawn(c: &mut Case) -> Res<N> {
    spawn_reader(c, true, false)
}

fn spawn_reader(c: &mut Case, reads: bool, deaf: bool) -> Res<N> {
    for _ in 0..100 {
        let port = mon::free_port();
        let (pk, sk) = keys(c);
        let running = Arc::new(AtomicBool::new(true));
        let (r, address) = (running.clone(), ([0, 0, 0, 0], port).into());
        let Ok((node, node_ref)) = c.guard("spawn", || Node::spawn(sk, pk, address, (), r))? else {
            continue;
        };
        let (tx, events) = mpsc::channel();
        let polling = c.rng.chance(1, 2);
        let reading = Arc::new(AtomicBool::new(reads));
        let gate = reading.clone();
        let address = ([127, 0, 0, 1], port).into();
        if deaf {
            drop(node_ref);
            return Ok(N { node, events, running, address, reading, deaf });
        }
        std::thread::Builder::new()
            .name("harness-events".into())
            .spawn(move || loop {
                while !gate.load(Ordering::Acquire) {
                    std::thread::sleep(Duration::from_micros(300));
                }
                let r = if polling {
                    match node_ref.try_recv() {
                        Ok(None) => {
                            std::thread::sleep(Duration::from_micros(300));
                            continue;
                        }
                        Ok(Some(e)) => Ok(e),
                        Err(e) => Err(e),
                    }
                } else {
                    node_ref.recv()
                };
                let e = match r {
                    Ok(Event::Error(NodeError::Io(e))) => Ev::Error(e.raw_os_error()),
                    Ok(e) => Ev::Other(format!("{:?}", e)),
                    Err(_) => Ev::End,
                };
                let end = e == Ev::End;
                if tx.send(e).is_err() || end {
                    break;
                }
            })
            .expect("spawn");
        return Ok(N { node, events, running, address, reading, deaf });
    }
    fail("spawn/failed", "no port could be bound in 100 attempts")
}

/// Is anybody listening on the port? (Observed without connecting.)
fn listening(port: u16) -> bool {
    let t = std::fs::read_to_string("/proc/self/net/tcp").unwrap_or_default();
    let want = format!(":{:04X}", port);
    t.lines().any(|l| {
        let mut f = l.split_whitespace();
        f.nth(1).is_some_and(|a| a.ends_with(&want)) && f.nth(1) == Some("0A")
    })
}

impl N {
    fn stop(self, c: &mut Case, flag: bool) -> Res<Vec<Ev>> {
        let N { node, events, running, reading, deaf, .. } = self;
        if flag {
            running.store(false, Ordering::Release);
        }
        match timed(move || node.join()) {
            None => return fail("shutdown/stuck", format!("join did not return in {:?}", LONG)),
            Some(None) => {
                no_panics()?;
                return fail("panic/join", "join panicked");
            }
            Some(Some((_, d))) => {
                c.count("nodes stopped", 1);
                ensure!(d < Duration::from_secs(20), "shutdown/slow", "join took {:?}", d);
            }
        }
        let mut v = vec![];
        reading.store(true, Ordering::Release);
        while !deaf {
            match events.recv_timeout(LONG) {
                Ok(Ev::End) => break,
                Ok(e) => v.push(e),
                Err(_) => return fail("shutdown/events-open", "the event stream did not end after the node was joined"),
            }
        }
        no_panics()?;
        Ok(v)
    }
}

pub fn lifecycle(c: &mut Case, interrupted: bool) -> Res {
    let n = spawn(c)?;
    let port = n.address.port();
    ensure!(listening(port), "spawn/not-listening", "nobody listens on port {}", port);
    // a second node cannot take the port, and says so
    let (pk, sk) = keys(c);
    let a = ([0, 0, 0, 0], port).into();
    match c.guard("spawn", || Node::spawn(sk, pk, a, (), Arc::new(AtomicBool::new(true))))? {
        Err(NodeError::Io(_)) => c.count("taken port refused", 1),
        Ok(_) => return fail("spawn/taken-port", "two nodes on one port"),
    }
    let what = if interrupted { 2 } else { *c.rng.pick(&[0, 1, 3]) };
    match what {
        0 => {}
        1 => std::thread::sleep(Duration::from_millis(c.rng.below(2500))),
        2 => {
            let mut k = 0;
            for _ in 0..c.rng.range(1, 10) {
                k += interrupt_nodes();
                std::thread::sleep(Duration::from_millis(c.rng.below(20)));
            }
            c.count("interruptions", k);
        }
        _ => {
            for _ in 0..c.rng.range(1, 5) {
                let cmd = Command::Local { destination: keys(c).0.identity(), command: c.rng.bytes(100) };
                c.guard("command", || n.node.command(cmd))?;
            }
        }
    }
    ensure!(listening(port), "lifecycle/died", "the node stopped listening by itself (scenario {})", what);
    if let Ok(e) = n.events.recv_timeout(Duration::from_millis(3)) {
        return fail("event/unexpected", format!("{:?}", e));
    }
    let how = c.rng.below(3);
    if how == 2 {
        // by the flag alone
        n.running.store(false, Ordering::Release);
        ensure!(
            until(LONG, || !listening(port)),
            "shutdown/flag-ignored",
            "the node did not stop in {:?} after the flag was cleared",
            LONG
        );
    }
    c.distinct(format!("{} {} {}", what, how, c.index).as_bytes());
    c.sample(|| format!("scenario {} stopped by {}", what, ["join", "flag and join", "flag"][how as usize]));
    let rest = n.stop(c, how == 1)?;
    ensure!(rest.is_empty(), "event/unexpected", "{:?}", rest);
    ensure!(
        TcpListener::bind(("0.0.0.0", port)).is_ok(),
        "shutdown/port-held",
        "port {} is still bound after the node was joined",
        port
    );
    Ok(())
}

/// Commands, failures and the stop of a node whose owner does not read its events.
pub fn unread(c: &mut Case) -> Res {
    let deaf = c.index % 2 == 0;
    let n = spawn_reader(c, false, deaf)?;
    let port = n.address.port();
    let bad: SocketAddr = c.rng.pick(&["255.255.255.255:80", "[::ffff:255.255.255.255]:80"]).parse().unwrap();
    let total = *c.rng.pick(&[1u64, 3, 70, 1100, 4400]);
    let mut fails = 0;
    let pi = keys(c).0.identity();
    for _ in 0..total {
        if kernel_verdict(&bad).is_some() {
            fails += 1;
        }
        let cmd = Command::Connect { peer_pi: pi.clone(), address: bad };
        let (d, node) = (std::time::Instant::now(), &n.node);
        c.guard("command", || node.command(cmd))?;
        ensure!(d.elapsed() < LONG, "command/stuck", "took {:?}", d.elapsed());
    }
    ensure!(listening(port), "lifecycle/died", "the node stopped listening by itself with its events unread");
    c.count(if deaf { "stops with the events dropped" } else { "stops with events unread" }, 1);
    c.count("unread events", fails);
    c.distinct(format!("{} {} {}", deaf, total, c.index).as_bytes());
    c.sample(|| format!("events {}, {} failing dials", if deaf { "dropped" } else { "unread" }, fails));
    let flag = c.rng.chance(1, 2);
    let rest = n.stop(c, flag)?;
    ensure!(deaf || rest.iter().filter(|e| matches!(e, Ev::Error(_))).count() as u64 == fails, "event/lost", "{} failing dials, {} events", fails, rest.len());
    ensure!(rest.iter().all(|e| matches!(e, Ev::Error(_))), "event/unexpected", "{:?}", rest.last());
    ensure!(
        TcpListener::bind(("0.0.0.0", port)).is_ok(),
        "shutdown/port-held",
        "port {} is still bound after the node was joined",
        port
    );
    Ok(())
}

/// Left alone for a while, again and again, a node still listens and connects.
pub fn idle(c: &mut Case) -> Res {
    let n = spawn(c)?;
    let port = n.address.port();
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    l.set_nonblocking(true).unwrap();
    let mut waited = 0;
    for round in 0..3 {
        let ms = match (round, c.index % 8) {
            (1, 0) => c.rng.range(9_000, 12_000),
            (1, _) => c.rng.range(1_050, 5_500),
            _ => c.rng.below(2_500),
        };
        std::thread::sleep(Duration::from_millis(ms));
        waited += ms;
        ensure!(listening(port), "lifecycle/died", "the node stopped listening by itself after {} ms", waited);
        if let Ok(e) = n.events.try_recv() {
            return fail("event/unexpected", format!("{:?} after {} ms", e, waited));
        }
        let cmd = Command::Connect { peer_pi: keys(c).0.identity(), address: l.local_addr().unwrap() };
        c.guard("command", || n.node.command(cmd))?;
        ensure!(until(LONG, || l.accept().is_ok()), "connect/none", "no connection arrived after {} ms", waited);
    }
    std::thread::sleep(Duration::from_millis(20));
    ensure!(l.accept().is_err(), "connect/extra", "more connections than commands");
    c.count("seconds left alone", waited / 1000);
    c.distinct(format!("{} {}", waited, c.index).as_bytes());
    c.sample(|| format!("{} ms", waited));
    let rest = n.stop(c, c.index % 2 == 0)?;
    ensure!(rest.is_empty(), "event/unexpected", "{:?}", rest);
    Ok(())
}

/// Nodes to which nothing happens use hardly any processor time.
pub fn rest(c: &mut Case) -> Res {
    let mut nodes = vec![];
    for i in 0..12u64 {
        let n = spawn(c)?;
        match i % 4 {
            0 => {}
            1 => {
                let cmd = Command::Local { destination: keys(c).0.identity(), command: c.rng.bytes(100) };
                c.guard("command", || n.node.command(cmd))?;
            }
            2 => {
                let a = c.rng.pick(&["255.255.255.255:80", "[::ffff:255.255.255.255]:80"]).parse().unwrap();
                let cmd = Command::Connect { peer_pi: keys(c).0.identity(), address: a };
                c.guard("command", || n.node.command(cmd))?;
            }
            _ => {
                interrupt_nodes();
            }
        }
        nodes.push(n);
    }
    crate::at_rest(c)?;
    for n in nodes {
        n.stop(c, false)?;
    }
    c.distinct(&c.index.to_le_bytes());
    c.sample(|| "twelve nodes in four states".to_string());
    Ok(())
}

/// Nothing of a stopped node stays behind in the process: no thread, no open file.
pub fn leftovers(c: &mut Case) -> Res {
    ensure!(until(LONG, || crate::node_threads() == 0), "shutdown/leftover-thread", "{} threads of stopped nodes", crate::node_threads());
    let before = crate::open_files();
    for i in 0..c.rng.range(10, 30) {
        let n = spawn(c)?;
        n.stop(c, i % 2 == 0)?;
    }
    ensure!(until(LONG, || crate::node_threads() == 0), "shutdown/leftover-thread", "{} threads of stopped nodes", crate::node_threads());
    ensure!(until(Duration::from_secs(10), || crate::open_files() <= before), "shutdown/leftover-file", "{} open files before, {} after", before, crate::open_files());
    c.count("processes found clean", 1);
    c.distinct(&c.index.to_le_bytes());
    c.sample(|| format!("{} files open", before));
    Ok(())
}

/// An inbound connection does not end the node.
pub fn inbound(c: &mut Case) -> Res {
    let n = spawn(c)?;
    let port = n.address.port();
    let s = TcpStream::connect(n.address).expect("connect");
    std::thread::sleep(Duration::from_millis(200));
    let alive = listening(port);
    drop(s);
    c.count("inbound connections", 1);
    let r = n.stop(c, true);
    mon::drain_panics();
    ensure!(alive && r.is_ok(), "inbound/node-dies", "an inbound connection ended the node: {:?}", r.err());
    Ok(())
}

/// What the kernel says about connecting there without blocking: None = in progress or done.
fn kernel_verdict(a: &SocketAddr) -> Option<i32> {
    unsafe {
        let v6 = a.is_ipv6();
        let fd = libc::socket(if v6 { libc::AF_INET6 } else { libc::AF_INET }, libc::SOCK_STREAM | libc::SOCK_NONBLOCK | libc::SOCK_CLOEXEC, 0);
        if fd < 0 {
            return Some(*libc::__errno_location());
        }
        let r = match a {
            SocketAddr::V4(a) => {
                let mut s: libc::sockaddr_in = std::mem::zeroed();
                s.sin_family = libc::AF_INET as u16;
                s.sin_port = a.port().to_be();
                s.sin_addr.s_addr = u32::from_ne_bytes(a.ip().octets());
                libc::connect(fd, &s as *const _ as *const libc::sockaddr, std::mem::size_of_val(&s) as u32)
            }
            SocketAddr::V6(a) => {
                let mut s: libc::sockaddr_in6 = std::mem::zeroed();
                s.sin6_family = libc::AF_INET6 as u16;
                s.sin6_port = a.port().to_be();
                s.sin6_addr.s6_addr = a.ip().octets();
                libc::connect(fd, &s as *const _ as *const libc::sockaddr, std::mem::size_of_val(&s) as u32)
            }
        };
        let e = *libc::__errno_location();
        libc::close(fd);
        if r == 0 || e == libc::EINPROGRESS {
            None
        } else {
            Some(e)
        }
    }
}

/// A port that is held but not listened on, so connections to it are refused.
fn refusing() -> (std::os::fd::OwnedFd, SocketAddr) {
    use std::os::fd::FromRawFd;
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        assert!(fd >= 0);
        let mut s: libc::sockaddr_in = std::mem::zeroed();
        s.sin_family = libc::AF_INET as u16;
        s.sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
        let mut l = std::mem::size_of_val(&s) as u32;
        assert_eq!(libc::bind(fd, &s as *const _ as *const libc::sockaddr, l), 0);
        assert_eq!(libc::getsockname(fd, &mut s as *mut _ as *mut libc::sockaddr, &mut l), 0);
        (std::os::fd::OwnedFd::from_raw_fd(fd), ([127, 0, 0, 1], u16::from_be(s.sin_port)).into())
    }
}

/// A listener whose queue is full: a connection to it stays unanswered. `None` if this kernel has no such thing.
fn silent() -> Option<(TcpListener, Vec<std::net::TcpStream>)> {
    use std::os::fd::FromRawFd;
    let (held, a) = refusing();
    let l = unsafe {
        let fd = std::os::fd::IntoRawFd::into_raw_fd(held);
        assert_eq!(libc::listen(fd, 0), 0);
        TcpListener::from_raw_fd(fd)
    };
    let mut queue = vec![];
    for _ in 0..16 {
        match std::net::TcpStream::connect_timeout(&a, Duration::from_millis(300)) {
            Ok(s) => queue.push(s),
            Err(e) if e.kind() == std::io::ErrorKind::TimedOut => return Some((l, queue)),
            Err(_) => return None,
        }
    }
    None
}

/// Peers that do not answer hold nothing up: not the commands, not the node, not its stop.
pub fn unanswered(c: &mut Case) -> Res {
    let Some((silent, _queue)) = silent() else { return Ok(()) };
    let n = spawn(c)?;
    let live = TcpListener::bind("127.0.0.1:0").expect("listener");
    live.set_nonblocking(true).unwrap();
    let mut h = String::new();
    for _ in 0..c.rng.range(2, 12) {
        let to_silent = c.rng.chance(2, 3);
        let address = if to_silent { &silent } else { &live }.local_addr().unwrap();
        h.push_str(if to_silent { "silent " } else { "live " });
        let cmd = Command::Connect { peer_pi: keys(c).0.identity(), address };
        let t = std::time::Instant::now();
        c.guard("command", || n.node.command(cmd))?;
        ensure!(t.elapsed() < Duration::from_secs(10), "connect/blocks", "a command took {:?}: {}", t.elapsed(), h);
        if to_silent {
            c.count("peers that do not answer", 1);
        } else {
            ensure!(until(LONG, || live.accept().is_ok()), "connect/none", "no connection arrived after {}", h);
            c.count("connections observed", 1);
        }
        if let Ok(e) = n.events.recv_timeout(Duration::from_millis(2)) {
            return fail("event/unexpected", format!("{:?} after {}", e, h));
        }
    }
    ensure!(listening(n.address.port()), "lifecycle/died", "the node stopped listening by itself after {}", h);
    c.distinct(format!("{} {}", h, c.index).as_bytes());
    c.sample(|| h.clone());
    n.stop(c, c.index % 2 == 0)?;
    Ok(())
}

/// Runs a command and notes where it connects to from this thread.
fn run(c: &mut Case, n: &N, cmd: Command<SocketAddr>) -> Res {
    let want = match &cmd {
        Command::Connect { address, .. } => Some(*address),
        _ => None,
    };
    let (r, to) = inject::connects(|| c.guard("command", || n.node.command(cmd)));
    r?;
    ensure!(to.len() <= want.is_some() as usize, "connect/attempts", "a command to connect to {:?} connects to {:?}", want, to);
    if let (Some(w), Some(a)) = (want, to.first()) {
        ensure!(inject::same(&w, a), "connect/attempts", "a command to connect to {} connects to {}", w, a);
        c.count("attempts seen", 1);
    }
    Ok(())
}

/// Opening the node fails at one of its system calls: that is what the caller is told, and nothing
/// is left behind.
pub fn start_fails(c: &mut Case) -> Res {
    let (pass, errno) = (c.rng.below(10), *c.rng.pick(&[libc::EMFILE, libc::ENFILE, libc::ENOMEM, libc::ENOBUFS, libc::EACCES, libc::EPERM, libc::EADDRINUSE, libc::EADDRNOTAVAIL, libc::ENOSPC, libc::EINVAL]));
    for _ in 0..100 {
        let port = mon::free_port();
        let (pk, sk) = keys(c);
        let running = Arc::new(AtomicBool::new(true));
        let (r, address) = (running.clone(), ([0, 0, 0, 0], port).into());
        let (node, hit) = inject::opening(pass, errno, || c.guard("spawn", || Node::spawn(sk, pk, address, (), r)));
        match (node?, hit) {
            (Err(NodeError::Io(e)), true) => {
                ensure!(e.raw_os_error() == Some(errno), "spawn/cause", "call {} failed with errno {}, the start with {:?}", pass, errno, e);
                ensure!(until(Duration::from_secs(5), || TcpListener::bind(("0.0.0.0", port)).is_ok()), "spawn/port-held", "the start failed with {:?} and holds its port", e);
                c.count("failed starts", 1);
            }
            (Err(_), false) => continue,
            (Ok((node, _events)), hit) => {
                // no such call, or it could do without
                ensure!(listening(port), "spawn/unusable", "the node started although call {} failed with {} ({}), and does not listen", pass, errno, hit);
                match timed(move || node.join()) {
                    Some(Some(_)) => {}
                    other => return fail("shutdown/stuck", format!("{:?}", other.map(|_| "panicked"))),
                }
            }
            #[allow(unreachable_patterns)]
            (Err(e), true) => return fail("spawn/cause", format!("call {} failed with errno {}, the start with {:?}", pass, errno, e)),
        }
        no_panics()?;
        c.distinct(format!("{} {}", pass, errno).as_bytes());
        return Ok(());
    }
    fail("spawn/failed", "no port could be bound in 100 attempts")
}

/// Attempts that fail at once, for every reason.
pub fn failing(c: &mut Case) -> Res {
    let n = spawn(c)?;
    let mut h = String::new();
    for _ in 0..c.rng.range(4, 20) {
        let a = *c.rng.pick(&["127.0.0.1:0", "[::1]:0", "127.9.8.7:0"]);
        let l = TcpListener::bind(a).or_else(|_| TcpListener::bind("127.0.0.1:0")).unwrap();
        l.set_nonblocking(true).unwrap();
        let at = l.local_addr().unwrap();
        let pi = keys(c).0.identity();
        if c.rng.chance(1, 4) {
            h.push_str("live ");
            run(c, &n, Command::Connect { peer_pi: pi, address: at })?;
            ensure!(until(LONG, || l.accept().is_ok()), "connect/none", "no connection arrived after {}", h);
            c.count("connections observed", 1);
            continue;
        }
        let e = *c.rng.pick(&[
            libc::ECONNREFUSED, libc::EADDRNOTAVAIL, libc::ENETUNREACH, libc::EHOSTUNREACH, libc::EACCES, libc::EPERM, libc::ETIMEDOUT,
            libc::ENOBUFS, libc::EADDRINUSE, libc::EAFNOSUPPORT, libc::ENOMEM, libc::ECONNRESET, libc::EAGAIN, libc::EINVAL, libc::EALREADY,
        ]);
        h.push_str(&format!("{} ", e));
        let p = inject::fail_connect(at, 1, e);
        let no_socket = c.rng.chance(1, 5);
        if no_socket {
            // not even a socket can be had
            h.push_str("at once ");
            let cmd = Command::Connect { peer_pi: pi, address: at };
            inject::opening(0, e, || run(c, &n, cmd)).0?;
        } else {
            run(c, &n, Command::Connect { peer_pi: pi, address: at })?;
        }
        if p.calls() == 0 && !no_socket && until(Duration::from_millis(200), || l.accept().is_ok()) {
            // connected by another system call, which is as good
            n.stop(c, true)?;
            return Ok(());
        }
        match n.events.recv_timeout(LONG) {
            Ok(Ev::Error(Some(x))) if x == e => c.count("failures reported", 1),
            other => return fail("connect/failure-not-reported", format!("connecting to {} fails with errno {}, the node said {:?}: {}", at, e, other, h)),
        }
        if let Ok(x) = n.events.recv_timeout(Duration::from_millis(2)) {
            return fail("event/unexpected", format!("{:?} after {}", x, h));
        }
        ensure!(p.calls() == !no_socket as usize && l.accept().is_err(), "connect/extra", "{} attempts for one command: {}", p.calls(), h);
    }
    ensure!(listening(n.address.port()), "lifecycle/died", "the node stopped listening by itself after {}", h);
    c.distinct(h.as_bytes());
    c.sample(|| h.clone());
    let rest = n.stop(c, c.index % 2 == 0)?;
    ensure!(rest.is_empty(), "event/unexpected", "{:?}", rest);
    Ok(())
}

/// Connections that cannot be accepted: reported one by one, and the node goes on.
pub fn unacceptable(c: &mut Case) -> Res {
    let n = spawn(c)?;
    let e = *c.rng.pick(&[libc::EMFILE, libc::ENFILE, libc::ECONNABORTED, libc::ENOBUFS, libc::ENOMEM, libc::EPERM, libc::EPROTO]);
    let times = c.rng.range(1, 12) as usize;
    let p = inject::fail(inject::Call::Accept, n.address.port(), 0, times, e, Some(libc::EAGAIN));
    let total = c.rng.range(1, 12);
    let mut held = vec![];
    for _ in 0..total {
        match TcpStream::connect_timeout(&n.address, LONG) {
            Ok(s) => held.push(s),
            Err(x) => {
                ensure!(listening(n.address.port()), "lifecycle/died", "the node stopped listening when accepting failed with {}", e);
                return Err(mon::Fail { sig: "accept/refused".into(), detail: format!("{:?}", x) });
            }
        }
        if c.rng.chance(1, 2) {
            std::thread::sleep(Duration::from_millis(c.rng.range(1, 5)));
        }
        if c.rng.chance(1, 8) {
            held.clear();
        }
    }
    if !until(Duration::from_secs(10), || p.calls() > 0) {
        // not accepted, or by another system call
        return Ok(());
    }
    std::thread::sleep(Duration::from_millis(c.rng.range(5, 60)));
    ensure!(listening(n.address.port()), "lifecycle/died", "the node stopped listening when accepting failed with {}", e);
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    l.set_nonblocking(true).unwrap();
    let pi = keys(c).0.identity();
    run(c, &n, Command::Connect { peer_pi: pi, address: l.local_addr().unwrap() })?;
    ensure!(until(LONG, || l.accept().is_ok()), "connect/none", "no connection arrived after accepting failed with {}", e);
    let mut events: Vec<Ev> = n.events.try_iter().collect();
    events.extend(n.stop(c, c.index % 2 == 0)?);
    let failed = p.failed();
    let reported = events.iter().filter(|x| **x == Ev::Error(Some(e))).count();
    ensure!(reported == failed, "event/accept-error", "accepting failed {} times with {}, reported {} times", failed, e, reported);
    events.retain(|x| *x != Ev::Error(Some(e)) && *x != Ev::Error(Some(libc::EAGAIN)));
    ensure!(events.is_empty(), "event/unexpected", "{:?}", events);
    c.count("failed accepts", failed as u64);
    c.distinct(format!("{} {} {} {}", e, times, total, failed).as_bytes());
    Ok(())
}

pub fn connect(c: &mut Case) -> Res {
    let steps = c.rng.range(2, 12);
    connect_steps(c, steps)
}

pub fn connect_long(c: &mut Case) -> Res {
    let steps = c.rng.range(60, 150);
    connect_steps(c, steps)
}

fn connect_steps(c: &mut Case, steps: u64) -> Res {
    let n = spawn(c)?;
    let listeners: Vec<TcpListener> = (0..c.rng.range(1, 4))
        .map(|_| {
            // every local address is as good as another
            let a = *c.rng.pick(&["127.0.0.1:0", "127.0.0.1:0", "[::1]:0", "[::1]:0", "[::ffff:127.0.0.1]:0", "127.9.8.7:0", "0.0.0.0:0"]);
            let l = TcpListener::bind(a).or_else(|_| TcpListener::bind("127.0.0.1:0")).unwrap();
            l.set_nonblocking(true).unwrap();
            l
        })
        .collect();
    // the same peer may be dialled again and again, also at other addresses
    let pool: Vec<_> = (0..3).map(|_| keys(c).0.identity()).collect();
    let bad: Vec<SocketAddr> = ["255.255.255.255:80", "240.0.0.1:1", "224.0.0.1:7", "10.255.255.1:9", "[2001:db8::1]:80", "[::ffff:255.255.255.255]:80"]
        .iter()
        .map(|s| s.parse().unwrap())
        .collect();
    let (_held, refused) = refusing();
    let mut h = String::new();
    for _ in 0..steps {
        let pi = if c.rng.chance(3, 4) { c.rng.pick(&pool).clone() } else { keys(c).0.identity() };
        match c.rng.below(5) {
            0 | 1 => {
                let i = c.rng.below(listeners.len() as u64) as usize;
                h.push_str(&format!("live{} ", i));
                let cmd = Command::Connect { peer_pi: pi, address: listeners[i].local_addr().unwrap() };
                run(c, &n, cmd)?;
                ensure!(until(LONG, || listeners[i].accept().is_ok()), "connect/none", "no connection arrived after {}", h);
                c.count("connections observed", 1);
                if listeners[i].local_addr().unwrap().is_ipv6() {
                    c.count("IPv6 connections observed", 1);
                }
            }
            2 => {
                let a = *c.rng.pick(&bad);
                h.push_str(&format!("{} ", a));
                let before = kernel_verdict(&a);
                let cmd = Command::Connect { peer_pi: pi, address: a };
                run(c, &n, cmd)?;
                if let Some(e) = before {
                    match n.events.recv_timeout(LONG) {
                        Ok(Ev::Error(Some(x))) if x == e => c.count("failing addresses reported", 1),
                        Ok(Ev::Error(x)) if kernel_verdict(&a) != Some(e) => {
                            let _ = x;
                        }
                        other => return fail("connect/failure-not-reported", format!("connecting to {} fails with errno {}, the node said {:?}", a, e, other)),
                    }
                }
            }
            3 => {
                h.push_str("refused ");
                let v = kernel_verdict(&refused);
                let cmd = Command::Connect { peer_pi: pi, address: refused };
                run(c, &n, cmd)?;
                if v.is_some() {
                    let _ = n.events.recv_timeout(Duration::from_millis(50));
                }
            }
            _ => {
                h.push_str("local ");
                let l = *c.rng.pick(&[0usize, 10, 100_000]);
                let cmd = Command::Local { destination: pi, command: c.rng.bytes(l) };
                run(c, &n, cmd)?;
            }
        }
        if let Ok(e) = n.events.recv_timeout(Duration::from_millis(2)) {
            return fail("event/unexpected", format!("{:?} after {}", e, h));
        }
    }
    std::thread::sleep(Duration::from_millis(20));
    for l in &listeners {
        ensure!(l.accept().is_err(), "connect/extra", "more connections than commands: {}", h);
    }
    ensure!(listening(n.address.port()), "lifecycle/died", "the node stopped listening by itself after {}", h);
    c.distinct(h.as_bytes());
    c.sample(|| h.clone());
    let rest = n.stop(c, c.index % 2 == 0)?;
    ensure!(rest.is_empty(), "event/unexpected", "{:?}", rest);
    Ok(())
}

/// How often this network namespace has begun a TCP connection, as counted by the kernel.
/// One node for a very long time.
pub fn marathon(c: &mut Case) -> Res {
    let n = spawn(c)?;
    let bad: SocketAddr = "255.255.255.255:80".parse().unwrap();
    let cause = kernel_verdict(&bad);
    let l = TcpListener::bind("127.0.0.1:0").expect("listener");
    l.set_nonblocking(true).unwrap();
    let (mut errors, mut accepted) = (0, 0);
    let total = 66_000 + c.rng.below(2_000);
    let pool: Vec<_> = (0..3).map(|_| keys(c).0.identity()).collect();
    for i in 0..total {
        let pi = c.rng.pick(&pool).clone();
        if i % 1000 == 999 {
            let cmd = Command::Connect { peer_pi: pi, address: l.local_addr().unwrap() };
            c.guard("command", || n.node.command(cmd))?;
            ensure!(until(LONG, || l.accept().is_ok()), "connect/none", "no connection arrived after {} commands", i);
            accepted += 1;
        } else if cause.is_some() && c.rng.chance(1, 2) {
            c.guard("command", || n.node.command(Command::Connect { peer_pi: pi, address: bad }))?;
            match n.events.recv_timeout(LONG) {
                Ok(Ev::Error(Some(x))) if Some(x) == cause => errors += 1,
                other => return fail("connect/failure-not-reported", format!("after {} commands connecting to {} fails with errno {:?}, the node said {:?}", i, bad, cause, other)),
            }
        } else {
            c.guard("command", || n.node.command(Command::Local { destination: pi, command: vec![1, 2, 3] }))?;
        }
    }
    c.count("commands to one node", total);
    c.count("failing addresses reported", errors);
    c.count("connections observed", accepted);
    ensure!(listening(n.address.port()), "lifecycle/died", "the node stopped listening by itself after {} commands", total);
    c.distinct(format!("{} {}", total, c.index).as_bytes());
    let rest = n.stop(c, c.index % 2 == 0)?;
    ensure!(rest.is_empty(), "event/unexpected", "{:?}", rest);
    Ok(())
}

fn active_opens() -> Option<u64> {
    let t = std::fs::read_to_string("/proc/self/net/snmp").ok()?;
    let mut l = t.lines().filter(|l| l.starts_with("Tcp:"));
    let i = l.next()?.split_whitespace().position(|f| f == "ActiveOpens")?;
    l.next()?.split_whitespace().nth(i)?.parse().ok()
}

/// Attempts nobody accepts are counted by the kernel. Whatever else runs on this machine can only
/// add to the count, so the smallest of many measurements is judged, and only if a connect of our
/// own, measured the same way in between, comes out as exactly one.
pub fn attempts(c: &mut Case) -> Res {
    static ALONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _alone = ALONE.lock().unwrap_or_else(|e| e.into_inner());
    let n = spawn(c)?;
    let (_held, refused) = refusing();
    let l = TcpListener::bind("127.0.0.1:0").expect("listener");
    for (what, address) in [("refused", refused), ("accepted", l.local_addr().unwrap())] {
        let (mut own, mut ones, mut least) = (u64::MAX, 0, u64::MAX);
        for _ in 0..60 {
            let Some(a) = active_opens() else { return Ok(()) };
            let _ = std::net::TcpStream::connect(address);
            std::thread::sleep(Duration::from_millis(2));
            let Some(b) = active_opens() else { return Ok(()) };
            own = own.min(b - a);
            ones += (b - a == 1) as u64;
            let pi = keys(c).0.identity();
            let Some(a) = active_opens() else { return Ok(()) };
            c.guard("command", || n.node.command(Command::Connect { peer_pi: pi, address }))?;
            std::thread::sleep(Duration::from_millis(2));
            let Some(b) = active_opens() else { return Ok(()) };
            ensure!(b > a, "connect/none", "a connect to {} ({}) attempted nothing", address, what);
            least = least.min(b - a);
            if ones >= 5 && least == 1 {
                break;
            }
        }
        if own == 1 && ones >= 5 {
            ensure!(least == 1, "connect/attempts", "each connect to {} ({}) makes at least {} attempts", address, what, least);
            c.count("attempts counted by the kernel", 1);
        }
        c.distinct(format!("{} {}", what, c.index).as_bytes());
    }
    c.sample(|| "attempts counted by the kernel".into());
    n.stop(c, c.index % 2 == 0)?;
    Ok(())
}
