mod daemon;
use daemon::*;
use mon::{ensure, fail, hexs, Case, Check, Res};
use std::{
    ffi::OsString,
    io::{Read, Write},
    net::{SocketAddr, TcpListener},
    os::unix::{ffi::OsStringExt, fs::FileTypeExt, net::{UnixDatagram, UnixListener, UnixStream}},
    process::{Command, Stdio},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc,
    },
    time::Duration,
};

// ------------------------------------------------------------------ independent wire model
pub fn identity_text(hash: &[u8]) -> String {
    base64::encode([&[0u8][..], hash].concat())
}

pub fn encode_connect(hash: &[u8], a: &SocketAddr) -> Vec<u8> {
    let mut v = vec![0, 0, 0, 0];
    v.extend_from_slice(hash);
    match a {
        SocketAddr::V4(a) => {
            v.extend_from_slice(&0u32.to_le_bytes());
            v.extend_from_slice(&a.ip().octets());
            v.extend_from_slice(&a.port().to_le_bytes());
        }
        SocketAddr::V6(a) => {
            v.extend_from_slice(&1u32.to_le_bytes());
            v.extend_from_slice(&a.ip().octets());
            v.extend_from_slice(&a.port().to_le_bytes());
        }
    }
    v
}

pub fn encode_local(hash: &[u8], text: &[u8]) -> Vec<u8> {
    let mut v = vec![1, 0, 0, 0];
    v.extend_from_slice(hash);
    v.extend_from_slice(&(text.len() as u64).to_le_bytes());
    v.extend_from_slice(text);
    v
}

fn target() -> TcpListener {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    l.set_nonblocking(true).unwrap();
    l
}

/// A target at any local address of either family.
fn target_any(c: &mut Case) -> TcpListener {
    let a = *c.rng.pick(&["[::1]:0", "[::1]:0", "[::ffff:127.0.0.1]:0", "127.77.1.2:0"]);
    let l = TcpListener::bind(a).or_else(|_| TcpListener::bind("127.0.0.1:0")).unwrap();
    l.set_nonblocking(true).unwrap();
    l
}

fn accepts(l: &TcpListener, limit: Duration) -> bool {
    until(limit, || l.accept().is_ok())
}

// ------------------------------------------------------------------ D01
fn durable(c: &mut Case) -> Res {
    if c.index % 600 == 0 {
        return lives(c);
    }
    let s = Scratch::new();
    let mut known: Option<String> = None;
    let mut history = String::new();
    let rounds = c.rng.range(2, 5);
    for _ in 0..rounds {
        let how = c.rng.below(8);
        let mut d = Daemon::start(&s.0, free_port(), None);
        c.count("starts", 1);
        let early = how == 0;
        if early {
            // crash at any point of the start
            let ms = c.rng.below(120);
            history.push_str(&format!("early-kill@{}ms ", ms));
            std::thread::sleep(Duration::from_millis(ms));
        } else {
            match d.identity()? {
                Some(_) => {}
                None => {
                    d.drain();
                    return fail("start/failed", format!("after {}: {:?} {:?}", history, d.ended(), d.log));
                }
            }
            // another one on the same directory meanwhile: it takes nothing away
            if c.rng.below(3) == 0 {
                let ms = c.rng.below(600);
                history.push_str(&format!("second@+{}ms ", ms));
                std::thread::sleep(Duration::from_millis(ms));
                let mut e = Daemon::start(&s.0, free_port(), None);
                if c.rng.below(2) == 0 {
                    e.wait_end(Duration::from_millis(c.rng.below(60)));
                    e.signal(libc::SIGKILL);
                }
                // ending by itself is D04's concern
                e.wait_end(Duration::from_secs(3));
                e.signal(libc::SIGKILL);
                e.wait_end(LONG);
                if let (Some(a), Some(b)) = (d.identity()?, e.log.iter().find_map(|l| identity_of(l))) {
                    ensure!(a == b, "identity/changed", "{} became {} in a second daemon after {}", a, b, history);
                }
                if let Some(p) = e.panicked() {
                    return fail("panic/daemon", format!("{} after {}", p, history));
                }
                c.count("second daemons on the directory", 1);
            }
            match how {
                1..=4 => history.push_str("kill-on-announcement "),
                5 => {
                    let ms = c.rng.below(700);
                    history.push_str(&format!("kill@+{}ms ", ms));
                    std::thread::sleep(Duration::from_millis(ms));
                }
                6 => {
                    history.push_str("SIGTERM ");
                    d.signal(libc::SIGTERM);
                    d.wait_end(LONG);
                }
                _ => {
                    history.push_str("SIGINT ");
                    until(Duration::from_secs(5), || d.ready());
                    d.signal(libc::SIGINT);
                    ensure!(d.wait_end(LONG).is_some(), "stop/stuck", "after {}", history);
                }
            }
        }
        let _ = d.child.kill();
        let _ = d.child.wait();
        d.wait_end(Duration::from_secs(1));
        if let Some(p) = d.panicked() {
            return fail("panic/daemon", format!("{} after {}", p, history));
        }
        // an announced identity is the identity
        let seen = d.log.iter().find_map(|l| identity_of(l));
        if let Some(i) = seen {
            c.count("announcements", 1);
            match &known {
                Some(k) => {
                    ensure!(*k == i, "identity/changed", "{} became {} after {}", k, i, history);
                    c.count("restarts with the same identity", 1);
                }
                None => {
                    unique(&i)?;
                    known = Some(i);
                }
            }
        }
    }
    // it still starts and serves
    let (mut d, i) = Daemon::serve(c, &s.0, None)?;
    if let Some(k) = &known {
        ensure!(*k == i, "identity/changed", "{} became {} after {}", k, i, history);
        c.count("restarts with the same identity", 1);
    }
    d.healthy(&history)?;
    c.distinct(format!("{} {}", history, c.index).as_bytes());
    c.sample(|| history.clone());
    d.interrupt(c, &history)?;
    Ok(())
}

/// Starts with a full disk or too few open files: what is announced holds all the same.
fn poor(c: &mut Case) -> Res {
    let s = Scratch::new();
    let mut known: Option<String> = None;
    let mut history = String::new();
    for _ in 0..c.rng.range(1, 3) {
        let (files, size) = match c.rng.below(4) {
            // around what it takes to store a key
            0..=2 => (None, Some(if c.rng.chance(1, 4) { c.rng.below(20_000) } else { c.rng.below(400) })),
            _ => (Some(c.rng.range(4, 14)), None),
        };
        if history.is_empty() && c.rng.chance(1, 4) {
            let (d, i) = Daemon::serve(c, &s.0, None)?;
            unique(&i)?;
            known = Some(i);
            d.interrupt(c, &history)?;
            history.push_str("normal ");
        }
        let mut d = Daemon::start_in(&s.0, free_port(), Env { files, size, ..Env::default() });
        history.push_str(&match size {
            Some(n) => format!("full-at-{} ", n),
            None => format!("{:?}-files ", files.unwrap()),
        });
        let seen = patient(c, &mut d)?;
        c.count("starts under a fault", 1);
        if c.rng.chance(1, 2) {
            d.signal(libc::SIGKILL);
        } else {
            until(Duration::from_millis(300), || d.ready() || d.ended().is_some());
            d.signal(libc::SIGINT);
        }
        ensure!(d.wait_end(LONG).is_some(), "stop/stuck", "after {}", history);
        if let Some(p) = d.panicked() {
            return fail("panic/daemon", format!("{} after {}", p, history));
        }
        match seen {
            Some(i) => {
                c.count("announcements under a fault", 1);
                match &known {
                    Some(k) => ensure!(*k == i, "identity/changed", "{} became {} after {}", k, i, history),
                    None => {
                        unique(&i)?;
                        known = Some(i);
                    }
                }
            }
            None => c.count("starts refused under a fault", 1),
        }
    }
    c.distinct(format!("{} {}", history, c.index).as_bytes());
    c.sample(|| history.clone());
    let (mut d, i) = Daemon::serve(c, &s.0, None)?;
    if let Some(k) = &known {
        ensure!(*k == i, "identity/changed", "{} became {} after {}", k, i, history);
        c.count("restarts with the same identity", 1);
    }
    d.healthy(&history)?;
    d.interrupt(c, &history)?;
    Ok(())
}

/// The database library may wait for ever for a write that has failed; such a life announces nothing.
fn patient(c: &mut Case, d: &mut Daemon) -> Res<Option<String>> {
    match d.identity_within(Duration::from_secs(8)) {
        Err(f) if f.sig == "start/no-identity" && d.log.iter().any(|l| l.contains("ERROR") && l.contains("sled::")) => {
            d.signal(libc::SIGKILL);
            c.count("starts stuck on a disk error", 1);
            Ok(None)
        }
        other => other,
    }
}

/// Every point of a start at which it can be cut off or fail, on a new directory and on used ones.
const POINTS: [(&str, u64); 14] = [
    ("kill", 0),
    ("after", 0),
    ("cut", 10),
    ("cut", 90),
    ("cut", 250),
    ("fail", libc::EIO as u64),
    ("fail", libc::ENOSPC as u64),
    ("full", 0),
    ("short", 100),
    ("short", 1),
    ("intr", 0),
    ("power", 1),
    ("power", 2),
    ("power", 3),
];

fn points(c: &mut Case) -> Res {
    let kinds = POINTS.len() as u64;
    let at = 1 + c.index / (3 * kinds);
    point(c, &[(c.index / kinds % 3, POINTS[(c.index % kinds) as usize], at)])
}

/// Chains of them.
fn chains(c: &mut Case) -> Res {
    let k = c.rng.range(2, 5);
    let l: Vec<_> = (0..k).map(|_| (c.rng.below(6), POINTS[c.rng.below(POINTS.len() as u64) as usize], c.rng.range(1, 20))).collect();
    point(c, &l)
}

/// More lives than a byte can count.
fn lives(c: &mut Case) -> Res {
    let s = Scratch::new();
    let mut known: Option<String> = None;
    for k in 0..c.rng.range(257, 270) {
        let mut d = Daemon::start(&s.0, free_port(), None);
        let Some(i) = d.identity()? else {
            d.drain();
            return fail("start/failed", format!("life {}: {:?} {:?}", k, d.ended(), d.log));
        };
        if known.get_or_insert(i.clone()) != &i {
            return fail("identity/changed", format!("{} became {} in life {}", known.unwrap(), i, k));
        }
        c.count("lives of one directory", 1);
        if c.rng.chance(1, 20) {
            until(Duration::from_secs(5), || d.ready());
            d.interrupt(c, "many lives")?;
        } else {
            d.signal(libc::SIGKILL);
            ensure!(d.wait_end(LONG).is_some(), "stop/stuck", "life {}", k);
        }
    }
    unique(known.as_ref().unwrap())?;
    c.distinct(format!("lives {}", c.index).as_bytes());
    Ok(())
}

fn point(c: &mut Case, lives: &[(u64, (&'static str, u64), u64)]) -> Res {
    let s = Scratch::new();
    let mut known: Option<String> = None;
    let mut history = String::new();
    let same = |known: &mut Option<String>, i: String, history: &str| -> Res {
        match known {
            Some(k) => ensure!(*k == i, "identity/changed", "{} became {} after {}", k, i, history),
            None => {
                unique(&i)?;
                *known = Some(i);
            }
        }
        Ok(())
    };
    for (before, (kind, p), at) in lives {
        // an undisturbed life before, which ends at its announcement or by an interrupt
        if matches!(*before, 1 | 2) {
            let (mut d, i) = Daemon::serve(c, &s.0, None)?;
            same(&mut known, i, &history)?;
            if *before == 1 {
                d.signal(libc::SIGKILL);
                ensure!(d.wait_end(LONG).is_some(), "stop/stuck", "after {}", history);
            } else {
                d.interrupt(c, &history)?;
            }
            history.push_str(["", "served,killed ", "served,interrupted "][*before as usize]);
        }
        let f = Faults::new(kind, *at, *p);
        history.push_str(&format!("{} ", f));
        let mut d = Daemon::start_in(&s.0, free_port(), Env { faults: Some(&f), ..Env::default() });
        let mut seen = if matches!(*kind, "fail" | "full") { patient(c, &mut d)? } else { d.identity()? };
        if d.ended().is_none() {
            until(Duration::from_millis(400), || d.ready() || d.ended().is_some());
            d.signal(if c.rng.chance(1, 2) { libc::SIGINT } else { libc::SIGKILL });
        }
        ensure!(d.wait_end(LONG).is_some(), "stop/stuck", "after {}", history);
        d.drain();
        seen = seen.or_else(|| d.log.iter().find_map(|l| identity_of(l)));
        c.count("starts under a fault", 1);
        match f.met() {
            Some(m) => {
                history.push_str(&format!("({}) ", m));
                c.count(format!("point:{}", m).leak(), 1);
                c.count(format!("fault:{}", kind).leak(), 1);
            }
            None => c.count("past the end", 1),
        }
        // the database library gives up by a panic when the disk reports an error
        let given_up = |p: &str| matches!(*kind, "fail" | "full") && p.contains("/sled-");
        if let Some(p) = d.panicked().filter(|p| !given_up(p)) {
            return fail("panic/daemon", format!("{} after {}", p, history));
        }
        match seen {
            Some(i) => {
                same(&mut known, i, &history)?;
                c.count("announcements under a fault", 1);
            }
            None => {
                // a partial write or an interrupted call is no failure
                ensure!(!matches!(*kind, "short" | "intr"), "start/failed", "after {}: {:?} {:?}", history, d.ended(), d.log);
                c.count("starts cut off or refused under a fault", 1);
            }
        }
    }
    c.distinct(format!("{} {}", history, c.index).as_bytes());
    c.sample(|| history.clone());
    let (mut d, i) = match Daemon::serve(c, &s.0, None) {
        Ok(v) => v,
        Err(f) => return fail(&f.sig, format!("after {}: {}", history, f.detail)),
    };
    same(&mut known, i, &history)?;
    c.count("restarts with the same identity", 1);
    d.healthy(&history)?;
    d.interrupt(c, &history)?;
    Ok(())
}

fn identity_of(l: &str) -> Option<String> {
    l.split(|c: char| !(c.is_ascii_alphanumeric() || c == '+' || c == '/' || c == '='))
        .find(|t| t.len() == 44 && base64::decode(t).is_ok_and(|b| b.len() == 33 && b[0] == 0))
        .map(|t| t.to_string())
}

fn unique(i: &str) -> Res {
    static S: std::sync::Mutex<Option<std::collections::HashSet<String>>> = std::sync::Mutex::new(None);
    let mut g = S.lock().unwrap();
    ensure!(g.get_or_insert_with(Default::default).insert(i.to_string()), "identity/shared", "two directories got the identity {}", i);
    Ok(())
}

// ------------------------------------------------------------------ D02
fn hostile_client(c: &mut Case, d: &Daemon, h: &mut String, kinds: u64) -> Res {
    let Some(mut s) = d.connect() else {
        // the accept queue may be full while a stalled client is being waited for
        if until(LONG, || d.connect().is_some()) {
            return Ok(());
        }
        return fail("control/refused", format!("the control socket refuses connections after {}", h));
    };
    c.count("hostile control clients", 1);
    let pi = c.rng.bytes(32);
    match c.rng.below(kinds) {
        0 => {}
        1 => {
            let l = c.rng.below(40) as usize;
            let b = c.rng.hostile(l);
            let _ = s.write_all(&b);
        }
        2 => {
            let mut b = c.rng.hostile(200);
            b[0] |= 2; // no such command
            let _ = s.write_all(&b);
        }
        3 => {
            let b = encode_connect(&pi, &"127.0.0.1:1".parse().unwrap());
            let k = c.rng.below(b.len() as u64) as usize;
            let _ = s.write_all(&b[..k]);
        }
        4 => {
            let mut b = encode_local(&pi, b"");
            b.truncate(36);
            b.extend_from_slice(&c.rng.pick(&[u64::MAX, 1 << 62, 1 << 40, 1 << 31, 100_000]).to_le_bytes());
            b.extend_from_slice(&[7; 50]);
            let _ = s.write_all(&b);
        }
        5 => {
            // unknown address family
            let mut b = encode_connect(&pi, &"127.0.0.1:1".parse().unwrap());
            b[36] = 2 + c.rng.below(200) as u8;
            let _ = s.write_all(&b);
        }
        _ => {
            let l = c.rng.below(300) as usize;
            let t = c.rng.bytes(l);
            let mut b = encode_local(&pi, &t);
            b.extend_from_slice(b"trailing");
            let _ = s.write_all(&b);
        }
    }
    Ok(())
}

fn dial_silent(c: &mut Case, d: &Daemon) -> Res {
    let Some(a) = silent() else { return Ok(()) };
    for _ in 0..c.rng.range(1, 3) {
        let Some(mut s) = d.connect() else { continue };
        let _ = s.write_all(&encode_connect(&c.rng.bytes(32), &a));
        c.count("commands to connect to a silent peer", 1);
    }
    Ok(())
}

/// One daemon for a very long time.
fn marathon(c: &mut Case) -> Res {
    let s = Scratch::new();
    let (mut d, _) = Daemon::serve(c, &s.0, Some(200))?;
    let (fds, l) = (d.fds(), target());
    let total = 66_000 + c.rng.below(2_000);
    let local = encode_local(&c.rng.bytes(32), b"text");
    for i in 0..total {
        let mut done = false;
        until(LONG, || match d.connect() {
            Some(mut s) => {
                done = match i % 3 {
                    0 => true,
                    1 => s.write_all(&[0, 0, 0]).is_ok(),
                    _ => s.write_all(&local).is_ok(),
                };
                true
            }
            None => false,
        });
        ensure!(done, "control/refused", "no connection to the control socket after {} clients", i);
        if i % 1000 == 999 {
            d.drain();
            d.log.clear();
            valid(c, &d, &l, "many clients")?;
            d.healthy("many clients")?;
        }
    }
    c.count("clients of one daemon", total);
    valid(c, &d, &l, "many clients")?;
    ensure!(d.fds() <= fds + 8, "control/leak", "{} open files grew to {} after {} clients", fds, d.fds(), total);
    c.distinct(format!("{} {}", total, c.index).as_bytes());
    std::thread::sleep(Duration::from_millis(3));
    ensure!(l.accept().is_err(), "control/extra", "a command was executed twice among {} clients", total);
    d.healthy("many clients")?;
    d.interrupt(c, "many clients")?;
    Ok(())
}

fn control(c: &mut Case) -> Res {
    if c.index % 200 == 0 {
        return marathon(c);
    }
    let s = Scratch::new();
    let (mut d, _) = Daemon::serve(c, &s.0, Some(200))?;
    let fds = d.fds();
    c.count("open files seen", fds as u64);
    let l = target();
    let mut h = String::new();
    // well beyond the number of files the process may open
    let n = if c.index % 4 == 0 { c.rng.range(500, 700) } else { c.rng.range(20, 150) };
    // in every other case nobody sends anything valid in between
    let relentless = c.index % 8 < 4;
    for _ in 0..n {
        hostile_client(c, &d, &mut h, if relentless { 6 } else { 7 })?;
        if !relentless && c.rng.chance(1, 40) {
            if c.rng.chance(1, 2) {
                valid(c, &d, &l, "hostile clients")?;
            } else {
                repeated(c, &d, &l, "hostile clients")?;
            }
        }
    }
    if relentless {
        c.count("hostile clients without a valid command in between", n);
    }
    h = format!("{} hostile clients", n);
    let mut held: Vec<UnixStream> = vec![];
    if c.index % 3 == 1 {
        for _ in 0..c.rng.range(1, 3) {
            if let Some(mut s) = d.connect() {
                let k = c.rng.below(20) as usize;
                let _ = s.write_all(&encode_connect(&[1; 32], &"127.0.0.1:1".parse().unwrap())[..k]);
                held.push(s);
                c.count("stalled control clients", 1);
            }
        }
        h.push_str(&format!(" and {} stalled", held.len()));
    }
    if c.index % 2 == 0 {
        // nor does a peer that does not answer hold anybody up
        dial_silent(c, &d)?;
        h.push_str(" and a silent peer");
    }
    valid(c, &d, &l, &h)?;
    d.healthy(&h)?;
    drop(held);
    repeated(c, &d, &l, &h)?;
    ensure!(d.fds() <= fds + 8, "control/leak", "{} open files grew to {} after {}", fds, d.fds(), h);
    c.distinct(format!("{} {}", h, c.index).as_bytes());
    c.sample(|| h.clone());
    std::thread::sleep(Duration::from_millis(3));
    ensure!(l.accept().is_err(), "control/extra", "a command was executed twice after {}", h);
    d.healthy(&h)?;
    d.interrupt(c, &h)?;
    Ok(())
}

/// The daemon's own calls fail for a moment, among clients of all sorts.
fn failing(c: &mut Case) -> Res {
    let s = Scratch::new();
    let log = base().join(format!("control-{}", std::process::id() as u64 * 1_000_000 + c.index));
    std::fs::create_dir_all(base()).expect("scratch");
    std::fs::write(&log, b"").expect("scratch");
    mode(&log, 0o666);
    let n = c.rng.below(1 << 20);
    let (mut d, _) = Daemon::serve_in(c, &s.0, || Env { control: Some((n, log.as_path())), ..Env::default() })?;
    let l = target();
    let h = format!("failing calls {}", n);
    for _ in 0..c.rng.range(10, 25) {
        match c.rng.below(5) {
            0 => hostile_client(c, &d, &mut String::new(), 6)?,
            1 => repeated(c, &d, &l, &h)?,
            2 => given_only(&d, &encode_local(&c.rng.bytes(32), &vec![b'x'; c.rng.below(20_000) as usize]), &h)?,
            _ => valid(c, &d, &l, &h)?,
        }
    }
    valid(c, &d, &l, &h)?;
    d.healthy(&h)?;
    std::thread::sleep(Duration::from_millis(3));
    ensure!(l.accept().is_err(), "control/extra", "a command was executed twice after {}", h);
    d.interrupt(c, &h)?;
    let t = std::fs::read_to_string(&log).unwrap_or_default();
    let _ = std::fs::remove_file(&log);
    for what in t.lines().filter_map(|l| l.split(' ').nth(1)) {
        let name = match what {
            "accept" => "daemon's calls that failed:accept",
            "poll" => "daemon's calls that failed:poll",
            "read" => "daemon's calls that were interrupted:read",
            "short" => "daemon's calls that took a part:read",
            _ => continue,
        };
        c.count(name, 1);
    }
    c.distinct(t.as_bytes());
    c.sample(|| h.clone());
    Ok(())
}

/// A valid command is executed.
/// Clients that keep sending and never finish: byte by byte, or as fast as they can.
fn unfinished(c: &mut Case) -> Res {
    let s = Scratch::new();
    let (mut d, _) = Daemon::serve(c, &s.0, Some(200))?;
    let l = target();
    let kind = c.index % 4;
    let h = ["a client that sends a text byte by byte", "a client that sends a head byte by byte", "a client that sends without an end", "one stalled client and one that sends without an end"][kind as usize];
    let pause = c.rng.range(50, 1900);
    let f: Vec<Flood> = match kind {
        0 => vec![Flood::drip(&d, pause, true)],
        1 => vec![Flood::drip(&d, pause, false)],
        2 => vec![Flood::endless(&d)],
        _ => vec![Flood::endless(&d)],
    };
    let stalled = if kind == 3 { d.connect() } else { None };
    std::thread::sleep(Duration::from_millis(50 + c.rng.below(500)));
    valid(c, &d, &l, h)?;
    c.count("valid commands beside an unfinished one", 1);
    c.distinct(format!("{} {}", h, c.index).as_bytes());
    c.sample(|| h.to_string());
    d.healthy(h)?;
    let m = d.memory();
    ensure!(m < 4 << 30, "control/memory", "{} MiB in use after {}", m >> 20, h);
    drop(stalled);
    for f in f {
        c.count("pieces sent without an end", f.end());
    }
    valid(c, &d, &l, h)?;
    d.healthy(h)?;
    d.interrupt(c, h)?;
    Ok(())
}

fn valid(c: &mut Case, d: &Daemon, l: &TcpListener, after: &str) -> Res {
    let b = encode_connect(&c.rng.bytes(32), &l.local_addr().unwrap());
    given(c, d, l, &b, after)
}

/// The very same command is executed as often as it is given.
fn repeated(c: &mut Case, d: &Daemon, l: &TcpListener, after: &str) -> Res {
    let b = encode_connect(&c.rng.bytes(32), &l.local_addr().unwrap());
    let between = c.rng.chance(1, 2);
    for i in 0..c.rng.range(2, 5) {
        given(c, d, l, &b, after)?;
        if i > 0 {
            c.count("commands given again", 1);
        }
        if between && c.rng.chance(1, 2) {
            hostile_client(c, d, &mut String::new(), 4)?;
        }
    }
    Ok(())
}

/// The command is sent, its effect is not observed.
fn given_only(d: &Daemon, b: &[u8], after: &str) -> Res {
    let mut ok = false;
    until(LONG, || match d.connect() {
        Some(mut s) => {
            ok = s.write_all(b).is_ok();
            true
        }
        None => false,
    });
    ensure!(ok, "control/refused", "cannot send a command after {}", after);
    Ok(())
}

fn given(c: &mut Case, d: &Daemon, l: &TcpListener, b: &[u8], after: &str) -> Res {
    given_only(d, b, after)?;
    ensure!(accepts(l, LONG), "control/dead", "a valid command was not executed in {:?} after {}", LONG, after);
    c.count("valid commands executed", 1);
    Ok(())
}

// ------------------------------------------------------------------ D03
/// A text as bytes, now and then one that is not UTF-8.
fn text_bytes(c: &mut Case) -> Vec<u8> {
    let mut t = text(c).into_bytes();
    if c.rng.chance(1, 6) {
        let i = c.rng.below(t.len() as u64 + 1) as usize;
        let junk: &[u8] = *c.rng.pick(&[&b"\xff"[..], b"\xc3", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\xe9t\xe9"]);
        t.splice(i..i, junk.iter().copied());
    }
    t
}

fn text(c: &mut Case) -> String {
    let n = c.rng.below(60) as usize;
    let pool: Vec<char> = "abcXYZ 0123,.!?\"'\\\t\n$`é漢字🦀\u{7f}\u{1}=/".chars().collect();
    let mut t: String = (0..n).map(|_| *c.rng.pick(&pool)).collect();
    if c.rng.chance(1, 2) {
        // what some other program would interpret
        let s = *c.rng.pick(&[
            "\\n", "\\t", "\\r", "\\0", "\\\\", "\\x41", "\\u{41}", "\\\"", "\\'", "%20", "%0A", "%s", "%%", "{}", "{0}", "$HOME", "${PATH}", "$(id)", "`id`", "~", "~/", "*", "?", "[a-z]", "&amp;", "&#10;", "<b>", "#", "//",
            "/*", "--", "-", "--path", "--help", "-h", "=", "=?", "@file", "@", "\"\"", "''", "\"a\"", "'a'", ",", ";", "|", "&&", "!", "!!", "^", "\r\n", "\r", "\u{feff}", "e\u{301}", "\u{e9}", "\u{200b}", "\u{202e}", "\u{2028}", "ﬁ", "Å", "ß", "İ", "\u{1b}[0m",
            "\u{7f}", "\u{85}", "\u{fffd}", "\u{10ffff}", "null", "true", "0", "connect", "send-text", "AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8g", "127.0.0.1:1", "file:///etc", "a  b", "\t\t", "\n\n", ":)", "0x10", "1e3", "🏳\u{fe0f}\u{200d}🌈",
        ]);
        c.count("texts with an escape or keyword", 1);
        if c.rng.chance(1, 3) {
            t = s.to_string();
        } else {
            let at = c.rng.below(t.chars().count() as u64 + 1) as usize;
            let at = t.char_indices().nth(at).map_or(t.len(), |(i, _)| i);
            t.insert_str(at, s);
        }
    }
    if c.rng.chance(1, 8) {
        // the kernel takes up to 128 KiB in one argument
        t = t.repeat(*c.rng.pick(&[40usize, 40, 200, 500]));
    }
    if c.rng.chance(1, 4) {
        // white space at the ends is part of the text
        let ws = *c.rng.pick(&[" ", "\n", "\t", "  ", "\r\n", "\u{a0}"]);
        t = if c.rng.chance(1, 2) { format!("{}{}", t, ws) } else { format!("{}{}", ws, t) };
    }
    if t.starts_with('-') || t.is_empty() && c.rng.chance(1, 2) {
        t.insert(0, 'x');
    }
    t
}

fn address(c: &mut Case) -> SocketAddr {
    if c.rng.chance(1, 4) {
        // addresses that look like others
        let b = c.rng.hostile(4);
        let mut v6 = [0u8; 16];
        v6[12..].copy_from_slice(&b);
        match c.rng.below(4) {
            0 | 1 => v6[10..12].copy_from_slice(&[0xff, 0xff]),
            2 => {}
            _ => v6[..4].copy_from_slice(&[0, 0x64, 0xff, 0x9b]),
        }
        (v6, c.rng.u32() as u16).into()
    } else if c.rng.chance(1, 2) {
        let b = c.rng.hostile(4);
        (<[u8; 4]>::try_from(&b[..]).unwrap(), c.rng.u32() as u16).into()
    } else {
        let b = c.rng.hostile(16);
        (<[u8; 16]>::try_from(&b[..]).unwrap(), c.rng.u32() as u16).into()
    }
}

fn run_client<A: AsRef<std::ffi::OsStr>>(dir: &std::path::Path, args: &[A]) -> std::process::Output {
    client_command(dir, args).output().expect("client")
}

fn client_command<A: AsRef<std::ffi::OsStr>>(dir: &std::path::Path, args: &[A]) -> Command {
    static N: AtomicU64 = AtomicU64::new(0);
    let (at, path) = match N.fetch_add(1, Ordering::SeqCst) % 4 {
        0 => (dir, std::path::Path::new(".")),
        1 => (dir.parent().unwrap(), std::path::Path::new(dir.file_name().unwrap())),
        _ => (std::path::Path::new("/"), dir),
    };
    let mut cmd = program("vru-udp");
    cmd.current_dir(at).arg("--path").arg(path).args(args).env("RUST_BACKTRACE", "0").stdin(Stdio::null());
    cmd
}

/// The exit status tells whether the command was handed over: with nobody there, or with a
/// connection that fails in the middle, it is not; with one that takes the bytes in pieces, or
/// is interrupted, it is.
fn undelivered(c: &mut Case) -> Res {
    let s = Scratch::new();
    let at = s.0.join("ctrl.sock");
    for _ in 0..3 {
        let hash = c.rng.hostile(32);
        let pi = identity_text(&hash);
        let (args, want): (Vec<OsString>, Vec<u8>) = if c.rng.chance(1, 3) {
            let a = address(c);
            (vec!["connect".into(), pi.into(), a.to_string().into()], encode_connect(&hash, &a))
        } else {
            // texts longer than the kernel takes at once are longer than an argument can be
            let mut t = text_bytes(c);
            if c.rng.chance(1, 4) {
                t.resize(c.rng.range(60_000, 131_000) as usize, b'v');
            }
            let want = encode_local(&hash, &t);
            (vec!["send-text".into(), pi.into(), "--".into(), OsString::from_vec(t)], want)
        };
        let _ = std::fs::remove_file(&at);
        let _ = std::fs::remove_dir(&at);
        let mut cmd = client_command(&s.0, &args);
        let nobody = match c.rng.below(8) {
            0 => Some("no socket"),
            1 => {
                drop(UnixListener::bind(&at).expect("bind"));
                Some("a socket nobody listens at")
            }
            2 => {
                match c.rng.below(3) {
                    0 => std::fs::write(&at, b"").expect("scratch"),
                    1 => std::fs::create_dir(&at).expect("scratch"),
                    _ => {
                        UnixDatagram::bind(&at).expect("bind");
                        mode(&at, 0o777);
                    }
                }
                Some("no stream socket")
            }
            _ => None,
        };
        if let Some(why) = nobody {
            let out = cmd.output().expect("client");
            ensure!(!out.status.success(), "client/undelivered-success", "{}: {:?} ended with success", why, args);
            c.count("clients without a daemon", 1);
            c.distinct(format!("{} {:?}", why, args).as_bytes());
            continue;
        }
        let sock = UnixListener::bind(&at).expect("bind");
        mode(&at, 0o777);
        sock.set_nonblocking(true).unwrap();
        let (kind, p) = match c.rng.below(6) {
            0..=2 => ("fail", *c.rng.pick(&[libc::EPIPE, libc::ECONNRESET, libc::ENOBUFS, libc::ENOMEM, libc::EIO, libc::ENOTCONN]) as u64),
            3 => ("intr", 0),
            _ => ("short", c.rng.below(256)),
        };
        let f = Faults::new(kind, *c.rng.pick(&[1, 1, 1, 2, 3, 4, 5, 6, 7, 8]), p);
        f.on_sockets(&mut cmd);
        let delay = *c.rng.pick(&[0, 0, 3, 40]);
        let done = AtomicBool::new(false);
        let (out, got) = std::thread::scope(|t| {
            let (sock, done) = (&sock, &done);
            let r = t.spawn(move || loop {
                let last = done.load(Ordering::SeqCst);
                match sock.accept() {
                    Ok((mut s, _)) => {
                        std::thread::sleep(Duration::from_millis(delay));
                        s.set_nonblocking(false).unwrap();
                        let mut v = vec![];
                        let _ = s.read_to_end(&mut v);
                        break v;
                    }
                    Err(_) if last => break vec![],
                    Err(_) => std::thread::sleep(Duration::from_micros(300)),
                }
            });
            let out = cmd.output().expect("client");
            done.store(true, Ordering::SeqCst);
            (out, r.join().unwrap())
        });
        let met = f.met();
        // the fault may also have hit what the client says about itself
        let on_socket = met.as_ref().map_or(false, |m| !m.contains("output"));
        if on_socket {
            c.count(format!("socket fault:{}", kind).leak(), 1);
        }
        if kind == "fail" && on_socket {
            ensure!(!out.status.success(), "client/undelivered-success", "{} at {:?}: {:?} ended with success, {} of {} bytes arrived", f, met, args, got.len(), want.len());
            ensure!(want.starts_with(&got) && got.len() < want.len(), "client/bytes", "{} at {:?}: {:?}: sent {} instead of a part of {}", f, met, args, hexs(&got), hexs(&want));
        } else {
            ensure!(out.status.success(), "client/failed", "{}: {:?}: {} {}", f, args, out.status, String::from_utf8_lossy(&out.stderr));
            ensure!(got == want, "client/bytes", "{} at {:?}: {:?}: sent {} instead of {}", f, met, args, hexs(&got), hexs(&want));
            c.count("commands over a bad connection", 1);
        }
        c.distinct(format!("{} {:?}", f, args).as_bytes());
        c.sample(|| format!("{} {:?}", f, args).chars().take(200).collect());
    }
    Ok(())
}

/// The client program sends exactly the command it was given.
fn client(c: &mut Case) -> Res {
    let s = Scratch::new();
    let sock = UnixListener::bind(s.0.join("ctrl.sock")).expect("bind");
    mode(&s.0.join("ctrl.sock"), 0o777);
    for _ in 0..4 {
        let hash = c.rng.hostile(32);
        let pi = identity_text(&hash);
        let (args, want): (Vec<OsString>, Option<Vec<u8>>) = match c.rng.below(7) {
            0..=2 => {
                let a = address(c);
                (vec!["connect".into(), pi.into(), a.to_string().into()], Some(encode_connect(&hash, &a)))
            }
            3..=5 => {
                let mut t = text_bytes(c);
                let mut args: Vec<OsString> = vec!["send-text".into(), pi.into()];
                if c.rng.chance(1, 8) {
                    // whatever follows is no option
                    args.push("--".into());
                    if c.rng.chance(1, 2) {
                        t.insert(0, b'-');
                    }
                }
                if std::str::from_utf8(&t).is_err() {
                    c.count("texts that are not UTF-8", 1);
                }
                let want = encode_local(&hash, &t);
                args.push(OsString::from_vec(t));
                (args, Some(want))
            }
            _ => {
                // invalid invocations
                let bad: Vec<String> = match c.rng.below(15) {
                    5 => vec!["connect".into(), pi, "localhost:80".into()],
                    6 => vec!["connect".into(), pi, (*c.rng.pick(&["127.1:80", "2130706433:80", "[127.0.0.1]:80", "0x7f.0.0.1:80", "127.0.0.1:80 ", " 127.0.0.1:80", ":80", "", "127.0.0.1:-1", "127.0.0.1:80/udp"])).into()],
                    7 => vec!["connect".into(), format!("{}{}", pi, *c.rng.pick(&[" ", "\n", "=", "A", "AAAA"])), "127.0.0.1:1".into()],
                    8 => vec!["send-text".into(), format!("{}{}", *c.rng.pick(&[" ", "\n", "0x", "A"]), pi), "x".into()],
                    9 => vec!["send-text".into(), pi],
                    10 => vec!["send-text".into(), pi, "two".into(), "texts".into()],
                    11 => vec!["connect".into(), pi, "127.0.0.1:1".into(), "127.0.0.1:2".into()],
                    12 => vec!["send-text".into(), base64::encode(&hash), "x".into()],
                    13 => vec!["connect".into(), hexs(&hash), "127.0.0.1:1".into()],
                    14 => vec!["connect".into(), base64::encode([&[1u8 << c.rng.below(8)][..], &hash[..]].concat()), "127.0.0.1:1".into()],
                    0 => vec!["connect".into(), pi[..40].to_string(), "127.0.0.1:1".into()],
                    1 => vec!["connect".into(), pi, "127.0.0.1".into()],
                    2 => vec!["connect".into(), pi, "127.0.0.1:70000".into()],
                    3 => vec!["send-text".into(), format!("{}!", &pi[..43]), "x".into()],
                    _ => vec!["frobnicate".into(), pi],
                };
                (bad.into_iter().map(OsString::from).collect(), None)
            }
        };
        sock.set_nonblocking(true).unwrap();
        // read concurrently, the kernel buffers little
        let done = std::sync::atomic::AtomicBool::new(false);
        let (out, got) = std::thread::scope(|t| {
            let (sock, done) = (&sock, &done);
            let r = t.spawn(move || {
                let mut all: Vec<Vec<u8>> = vec![];
                loop {
                    // looked at first: a client that has ended has connected before
                    let last = done.load(std::sync::atomic::Ordering::SeqCst);
                    match sock.accept() {
                        Ok((mut s, _)) => {
                            s.set_nonblocking(false).unwrap();
                            let mut v = vec![];
                            let _ = s.read_to_end(&mut v);
                            all.push(v);
                        }
                        Err(_) if last => break all,
                        Err(_) => std::thread::sleep(Duration::from_micros(300)),
                    }
                }
            });
            let out = run_client(&s.0, &args);
            done.store(true, std::sync::atomic::Ordering::SeqCst);
            (out, r.join().unwrap())
        });
        match want {
            Some(w) => {
                ensure!(out.status.success(), "client/failed", "{:?}: {} {}", args, out.status, String::from_utf8_lossy(&out.stderr));
                ensure!(got.len() == 1, "client/connections", "{:?}: {} connections", args, got.len());
                ensure!(got[0] == w, "client/bytes", "{:?}: sent {} instead of {}", args, hexs(&got[0]), hexs(&w));
                c.count("client commands compared", 1);
            }
            None => {
                ensure!(!out.status.success(), "client/invalid-accepted", "{:?} was accepted", args);
                ensure!(got.iter().all(|g| g.is_empty()), "client/invalid-sent", "{:?} sent {}", args, hexs(&got[0]));
                ensure!(!String::from_utf8_lossy(&out.stderr).contains("panicked at"), "panic/client", "{:?}: {}", args, String::from_utf8_lossy(&out.stderr));
                c.count("invalid invocations refused", 1);
            }
        }
        c.distinct(format!("{:?}", args).as_bytes());
        c.sample(|| format!("{:?}", args));
    }
    Ok(())
}

/// An IPv6 address may name the interface it is reached by ("[fe80::1%2]:80"); that is part of the
/// address, so two such command lines have to differ in what is sent.
fn zone(c: &mut Case) -> Res {
    let s = Scratch::new();
    let sock = UnixListener::bind(s.0.join("ctrl.sock")).expect("bind");
    mode(&s.0.join("ctrl.sock"), 0o777);
    let pi = identity_text(&c.rng.hostile(32));
    let (host, port) = (c.rng.u64() as u16, c.rng.u64() as u16);
    let (a, b) = (c.rng.range(1, 100), c.rng.range(100, 1000));
    let mut sent = vec![];
    for zone in [a, b] {
        let text = format!("[fe80::{:x}%{}]:{}", host, zone, port);
        let done = std::sync::atomic::AtomicBool::new(false);
        sock.set_nonblocking(true).unwrap();
        let (out, got) = std::thread::scope(|t| {
            let (sock, done) = (&sock, &done);
            let r = t.spawn(move || loop {
                let last = done.load(std::sync::atomic::Ordering::SeqCst);
                match sock.accept() {
                    Ok((mut s, _)) => {
                        s.set_nonblocking(false).unwrap();
                        let mut v = vec![];
                        let _ = s.read_to_end(&mut v);
                        break Some(v);
                    }
                    Err(_) if last => break None,
                    Err(_) => std::thread::sleep(Duration::from_micros(300)),
                }
            });
            let out = run_client(&s.0, &["connect", pi.as_str(), text.as_str()]);
            done.store(true, std::sync::atomic::Ordering::SeqCst);
            (out, r.join().unwrap())
        });
        ensure!(!String::from_utf8_lossy(&out.stderr).contains("panicked at"), "panic/client", "{}: {}", text, String::from_utf8_lossy(&out.stderr));
        ensure!(out.status.success() == got.is_some(), "client/failed", "{}: {} {:?}", text, out.status, got);
        sent.push(got);
    }
    c.count("addresses with a zone", 2);
    c.distinct(format!("{} {} {}", host, a, b).as_bytes());
    ensure!(sent[0].is_none() || sent[0] != sent[1], "client/zone-lost", "[fe80::{:x}%{}]:{} and [...%{}]:{} are sent as the same message", host, a, port, b, port);
    Ok(())
}

/// The daemon executes each command it receives exactly once, whatever the framing on the socket.
fn execute(c: &mut Case) -> Res {
    let s = Scratch::new();
    let (mut d, _) = Daemon::serve(c, &s.0, None)?;
    let ls: Vec<TcpListener> = (0..4).map(|i| if i < 2 { target() } else { target_any(c) }).collect();
    let mut h = String::new();
    for _ in 0..c.rng.range(5, 12) {
        let i = c.rng.below(4) as usize;
        let a = ls[i].local_addr().unwrap();
        let hash = c.rng.bytes(32);
        match c.rng.below(8) {
            6 => {
                // a text as long as one likes, in pieces, and commands behind it
                let n = *c.rng.pick(&[0usize, 1, 4096, 65_536, 200_000, 1 << 20, (1 << 20) + 1, 5 << 20]);
                h.push_str(&format!("long-text{} ", n));
                let mut s = d.connect().ok_or_else(|| mon::Fail { sig: "control/refused".into(), detail: h.clone() })?;
                let b = encode_local(&hash, &c.rng.bytes(n));
                let step = c.rng.range(b.len() as u64 / 20 + 1, b.len() as u64) as usize;
                for p in b.chunks(step) {
                    if s.write_all(p).is_err() {
                        return fail("control/closed", format!("the daemon gave up on a long text, after {}", h));
                    }
                    std::thread::sleep(Duration::from_millis(c.rng.below(6)));
                }
                // a socket closed with something unread in it tells
                let _ = s.set_read_timeout(Some(LONG));
                let end = std::io::Read::read(&mut s, &mut [0]);
                ensure!(!matches!(&end, Err(e) if e.kind() == std::io::ErrorKind::ConnectionReset), "control/closed", "the daemon left a part of a long text unread, after {}", h);
                drop(s);
                let mut s = d.connect().ok_or_else(|| mon::Fail { sig: "control/refused".into(), detail: h.clone() })?;
                s.write_all(&encode_connect(&hash, &a)).expect("write");
                ensure!(accepts(&ls[i], LONG), "command/lost", "after {}", h);
                c.count("commands executed", 1);
                c.count("long texts", 1);
            }
            7 => {
                // many clients at the same time
                let n = c.rng.range(8, 40);
                h.push_str(&format!("crowd{} ", n));
                let (b, dir) = (encode_connect(&hash, &a), s.0.clone());
                let bad = std::thread::scope(|t| {
                    let hs: Vec<_> = (0..n)
                        .map(|_| {
                            let (b, p) = (&b, dir.join("ctrl.sock"));
                            t.spawn(move || until(LONG, || UnixStream::connect(&p).is_ok_and(|mut s| s.write_all(b).is_ok())))
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap()).filter(|ok| !ok).count()
                });
                ensure!(bad == 0, "control/refused", "{} of {} clients at once after {}", bad, n, h);
                for k in 0..n {
                    ensure!(accepts(&ls[i], LONG), "command/lost", "{} of {} after {}", k, n, h);
                    c.count("commands executed", 1);
                }
            }
            0 => {
                h.push_str("client ");
                let o = run_client(&s.0, &["connect".into(), identity_text(&hash), a.to_string()]);
                ensure!(o.status.success(), "client/failed", "{} {}", o.status, String::from_utf8_lossy(&o.stderr));
                ensure!(accepts(&ls[i], LONG), "command/lost", "after {}", h);
                c.count("commands executed", 1);
            }
            1 => {
                h.push_str("whole ");
                let mut s = d.connect().ok_or_else(|| mon::Fail { sig: "control/refused".into(), detail: h.clone() })?;
                s.write_all(&encode_connect(&hash, &a)).expect("write");
                ensure!(accepts(&ls[i], LONG), "command/lost", "after {}", h);
                c.count("commands executed", 1);
            }
            2 | 3 => {
                h.push_str("pieces ");
                let mut s = d.connect().ok_or_else(|| mon::Fail { sig: "control/refused".into(), detail: h.clone() })?;
                let b = encode_connect(&hash, &a);
                let k = 1 + c.rng.below(b.len() as u64 - 1) as usize;
                let k2 = k + c.rng.below((b.len() - k) as u64) as usize;
                for p in [&b[..k], &b[k..k2], &b[k2..]] {
                    if s.write_all(p).is_err() {
                        return fail("control/closed", format!("the daemon gave up on a slow client, after {}", h));
                    }
                    std::thread::sleep(Duration::from_millis(c.rng.below(60)));
                }
                ensure!(accepts(&ls[i], LONG), "command/lost", "a command sent in pieces {} {} after {}", k, k2, h);
                c.count("commands executed", 1);
            }
            4 => {
                // several at once
                let n = c.rng.range(2, 6);
                h.push_str(&format!("burst{} ", n));
                for _ in 0..n {
                    let mut s = d.connect().ok_or_else(|| mon::Fail { sig: "control/refused".into(), detail: h.clone() })?;
                    s.write_all(&encode_connect(&hash, &a)).expect("write");
                }
                for k in 0..n {
                    ensure!(accepts(&ls[i], LONG), "command/lost", "{} of {} after {}", k, n, h);
                    c.count("commands executed", 1);
                }
            }
            _ => {
                h.push_str("text ");
                let t = text_bytes(c);
                let o = run_client::<OsString>(&s.0, &["send-text".into(), identity_text(&hash).into(), OsString::from_vec(t)]);
                ensure!(o.status.success(), "client/failed", "{} {}", o.status, String::from_utf8_lossy(&o.stderr));
            }
        }
    }
    std::thread::sleep(Duration::from_millis(20));
    for l in &ls {
        ensure!(l.accept().is_err(), "command/duplicated", "after {}", h);
    }
    d.healthy(&h)?;
    c.distinct(format!("{} {}", h, c.index).as_bytes());
    c.sample(|| h.clone());
    d.interrupt(c, &h)?;
    Ok(())
}

// ------------------------------------------------------------------ D04
/// Clients running in the background until the end.
struct Flood {
    over: Arc<AtomicBool>,
    sent: Arc<AtomicU64>,
    threads: Vec<std::thread::JoinHandle<()>>,
}

impl Flood {
    /// Several threads connect again and again and send junk, commands or nothing.
    fn start(c: &mut Case, d: &Daemon, l: &TcpListener) -> Flood {
        let mut f = Flood { over: Default::default(), sent: Default::default(), threads: vec![] };
        let path = d.dir.join("ctrl.sock");
        let good = c.rng.chance(1, 2).then(|| encode_local(&c.rng.bytes(32), b"text"));
        let _ = l;
        f.threads = (0..c.rng.range(2, 6))
            .map(|_| {
                let (over, sent, path, good) = (f.over.clone(), f.sent.clone(), path.clone(), good.clone());
                let junk = c.rng.hostile(60);
                std::thread::spawn(move || {
                    let mut i = 0u64;
                    while !over.load(Ordering::SeqCst) {
                        i += 1;
                        match UnixStream::connect(&path) {
                            Ok(mut s) => {
                                let _ = match (&good, i % 3) {
                                    (_, 0) => Ok(()),
                                    (Some(g), _) => s.write_all(g),
                                    _ => s.write_all(&junk),
                                };
                                sent.fetch_add(1, Ordering::SeqCst);
                            }
                            Err(_) => std::thread::sleep(Duration::from_millis(1)),
                        }
                    }
                })
            })
            .collect();
        f
    }

    /// One client sends a long command byte by byte and never finishes.
    fn drip(d: &Daemon, pause: u64, complete_head: bool) -> Flood {
        let mut f = Flood { over: Default::default(), sent: Default::default(), threads: vec![] };
        let (over, sent, path) = (f.over.clone(), f.sent.clone(), d.dir.join("ctrl.sock"));
        let t = std::thread::spawn(move || {
            let mut head = encode_local(&[5; 32], b"");
            let n = head.len();
            head[n - 8..].copy_from_slice(&1_000_000u64.to_le_bytes());
            while !over.load(Ordering::SeqCst) {
                // reconnects when it is cut off
                let Ok(mut s) = UnixStream::connect(&path) else {
                    std::thread::sleep(Duration::from_millis(20));
                    continue;
                };
                let mut rest = if complete_head {
                    let _ = s.write_all(&head);
                    vec![]
                } else {
                    head.iter().rev().copied().collect()
                };
                while !over.load(Ordering::SeqCst) && s.write_all(&[rest.pop().unwrap_or(b'x')]).is_ok() {
                    sent.fetch_add(1, Ordering::SeqCst);
                    std::thread::sleep(Duration::from_millis(pause));
                }
            }
        });
        f.threads.push(t);
        f
    }

    /// One client announces a text of enormous length and sends and sends.
    fn endless(d: &Daemon) -> Flood {
        let mut f = Flood { over: Default::default(), sent: Default::default(), threads: vec![] };
        let (over, sent, path) = (f.over.clone(), f.sent.clone(), d.dir.join("ctrl.sock"));
        let t = std::thread::spawn(move || {
            let mut head = encode_local(&[5; 32], b"");
            let n = head.len();
            head[n - 8..].copy_from_slice(&(1u64 << 50).to_le_bytes());
            let Ok(mut s) = UnixStream::connect(&path) else { return };
            let _ = s.set_write_timeout(Some(Duration::from_secs(1)));
            let _ = s.write_all(&head);
            while !over.load(Ordering::SeqCst) {
                match s.write(&[b'x'; 4096]) {
                    Ok(_) => sent.fetch_add(1, Ordering::SeqCst),
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => 0,
                    Err(_) => break,
                };
            }
        });
        f.threads.push(t);
        f
    }

    fn end(mut self) -> u64 {
        self.over.store(true, Ordering::SeqCst);
        for t in self.threads.drain(..) {
            let _ = t.join();
        }
        self.sent.load(Ordering::SeqCst)
    }
}

impl Drop for Flood {
    fn drop(&mut self) {
        self.over.store(true, Ordering::SeqCst);
    }
}

fn lifecycle(c: &mut Case) -> Res {
    let s = Scratch::new();
    let scenario = c.index % 13;
    let name = [
        "idle",
        "idle longer",
        "after commands",
        "stalled client",
        "suspended and resumed",
        "second daemon",
        "leftover socket",
        "interrupt storm",
        "flood of clients",
        "crowd of stalled clients",
        "dripping client",
        "silent peer",
        "output not read any more",
    ][scenario as usize];
    if scenario == 6 {
        // left by a crash: a socket, a file, a link to one
        let kind = c.rng.below(3);
        for _ in 0..20 {
            let _ = std::fs::remove_file(s.0.join("ctrl.sock"));
            match kind {
                0 => drop(UnixListener::bind(s.0.join("ctrl.sock")).unwrap()),
                1 => std::fs::write(s.0.join("ctrl.sock"), b"junk").unwrap(),
                _ => {
                    std::fs::write(s.0.join("elsewhere"), b"").unwrap();
                    std::os::unix::fs::symlink(s.0.join("elsewhere"), s.0.join("ctrl.sock")).unwrap()
                }
            }
            let mut d = Daemon::start(&s.0, free_port(), None);
            let _ = d.identity()?;
            let ok = until(LONG, || {
                listening(d.port)
                    && std::fs::symlink_metadata(s.0.join("ctrl.sock")).is_ok_and(|m| m.file_type().is_socket())
                    && d.connect().is_some()
                    || d.ended().is_some()
            });
            d.drain();
            if d.port_taken() {
                continue;
            }
            ensure!(ok && d.ended().is_none(), "start/leftover", "does not serve with a leftover control socket: {:?}", d.log);
            let l = target();
            valid(c, &d, &l, name)?;
            c.count("scenarios", 1);
            c.count("starts over a leftover socket", 1);
            d.interrupt(c, name)?;
            return Ok(());
        }
        return fail("start/leftover", "no free port in 20 attempts");
    }
    let deaf = if scenario == 12 { c.rng.range(1, 2) as u8 } else { 0 };
    let (mut d, id) = Daemon::serve_in(c, &s.0, || Env { deaf, ..Env::default() })?;
    let port = d.port;
    let l = target();
    let mut held = vec![];
    let mut flood = None;
    match scenario {
        0 => {}
        11 => {
            dial_silent(c, &d)?;
            if c.rng.chance(1, 2) {
                valid(c, &d, &l, name)?;
            } else {
                std::thread::sleep(Duration::from_millis(c.rng.below(300)));
            }
        }
        12 => {
            // everything that makes the daemon say something
            for _ in 0..c.rng.range(2, 8) {
                match c.rng.below(3) {
                    0 => given_only(&d, &encode_connect(&c.rng.bytes(32), &"255.255.255.255:9".parse().unwrap()), name)?,
                    1 => hostile_client(c, &d, &mut String::new(), 6)?,
                    _ => valid(c, &d, &l, name)?,
                }
            }
            std::thread::sleep(Duration::from_millis(c.rng.below(200)));
            valid(c, &d, &l, name)?;
            c.count("daemons that nobody reads", 1);
        }
        8 => {
            // clients come without a pause, also while it is being stopped
            flood = Some(Flood::start(c, &d, &l));
            std::thread::sleep(Duration::from_millis(20 + c.rng.below(600)));
        }
        9 => {
            for _ in 0..c.rng.range(20, 60) {
                if let Some(s) = d.connect() {
                    held.push(s);
                }
            }
            c.count("stalled clients at a stop", held.len() as u64);
        }
        10 => {
            flood = Some(Flood::drip(&d, c.rng.range(100, 1500), c.rng.chance(1, 2)));
            std::thread::sleep(Duration::from_millis(20 + c.rng.below(2500)));
        }
        1 => {
            let before = c.rng.below(3);
            for _ in 0..before {
                valid(c, &d, &l, name)?;
                hostile_client(c, &d, &mut String::new(), 6)?;
            }
            // what the last client left undone is given up after a while
            std::thread::sleep(Duration::from_millis(if before > 0 { 2_500 } else { 500 }));
            let mut used = vec![];
            while used.len() < 3 && used.last().is_none_or(|u| *u > 0.2) {
                let (a, t) = (d.cpu(), std::time::Instant::now());
                std::thread::sleep(Duration::from_millis(c.rng.range(2_100, if c.index % 3 == 0 { 9_000 } else { 3_500 })));
                used.push((d.cpu() - a) / t.elapsed().as_secs_f64());
                c.count("intervals at rest", 1);
            }
            d.healthy(name)?;
            ensure!(used.last().is_none_or(|u| *u < 0.2), "rest/busy", "a daemon at rest uses {:.2?} processors", used);
            valid(c, &d, &l, name)?;
        }
        2 => {
            for _ in 0..c.rng.range(1, 20) {
                valid(c, &d, &l, name)?;
            }
        }
        3 => {
            for _ in 0..c.rng.range(1, 2) {
                if let Some(mut s) = d.connect() {
                    let k = c.rng.below(30) as usize;
                    let _ = s.write_all(&encode_connect(&[1; 32], &"127.0.0.1:1".parse().unwrap())[..k]);
                    held.push(s);
                }
            }
            std::thread::sleep(Duration::from_millis(c.rng.below(100)));
        }
        4 => {
            for _ in 0..c.rng.range(1, 4) {
                d.signal(libc::SIGSTOP);
                std::thread::sleep(Duration::from_millis(20 + c.rng.below(300)));
                d.signal(libc::SIGCONT);
                std::thread::sleep(Duration::from_millis(20 + c.rng.below(300)));
            }
            d.healthy(name)?;
            valid(c, &d, &l, name)?;
        }
        5 => {
            // same directory, another port
            let mut e = Daemon::start(&s.0, free_port(), None);
            match e.wait_end(LONG) {
                None => return fail("second/runs", "two daemons run on one directory"),
                Some(_) => {
                    if let Some(p) = e.panicked() {
                        return fail("panic/daemon", p);
                    }
                }
            }
            drop(e);
            d.healthy(name)?;
            valid(c, &d, &l, name)?;
            // same port, another directory
            let s2 = Scratch::new();
            let mut e = Daemon::start(&s2.0, port, None);
            match e.wait_end(LONG) {
                None => return fail("second/runs", "two daemons run on one port"),
                Some(_) => {
                    if let Some(p) = e.panicked() {
                        return fail("panic/daemon", p);
                    }
                }
            }
            d.healthy(name)?;
            valid(c, &d, &l, name)?;
            c.count("second daemons refused", 2);
        }
        _ => {
            for _ in 0..3 {
                d.signal(libc::SIGINT);
                std::thread::sleep(Duration::from_millis(c.rng.below(4)));
            }
        }
    }
    if scenario != 7 {
        d.healthy(name)?;
    }
    d.interrupt(c, name)?;
    drop(held);
    if let Some(f) = flood {
        c.count("clients while stopping", f.end());
    }
    c.count("scenarios", 1);
    c.distinct(format!("{} {}", name, c.index).as_bytes());
    c.sample(|| name.to_string());
    ensure!(
        until(Duration::from_secs(10), || !listening(port)),
        "stop/port-held",
        "port {} is still listened on",
        port
    );
    // and it can be started again
    let (mut d, id2) = Daemon::serve(c, &s.0, None)?;
    ensure!(id == id2, "identity/changed", "{} became {} after {}", id, id2, name);
    valid(c, &d, &l, name)?;
    d.healthy(name)?;
    d.interrupt(c, name)?;
    Ok(())
}

/// Impossible environments are refused without hanging or panicking.
fn refuse(c: &mut Case) -> Res {
    let s = Scratch::new();
    let (dir, what) = match c.index % 3 {
        0 => {
            std::fs::write(s.0.join("db"), b"not a directory").unwrap();
            (s.0.clone(), "db is a file")
        }
        1 => {
            std::fs::create_dir_all(s.0.join("ctrl.sock").join("x")).unwrap();
            (s.0.clone(), "ctrl.sock is a directory")
        }
        _ => {
            std::fs::write(s.0.join("f"), b"").unwrap();
            (s.0.clone(), "port taken")
        }
    };
    let hold = TcpListener::bind("0.0.0.0:0").unwrap();
    let port = if c.index % 3 == 2 { hold.local_addr().unwrap().port() } else { free_port() };
    let mut d = Daemon::start(&dir, port, None);
    let r = d.wait_end(LONG);
    c.count("impossible starts", 1);
    c.distinct(format!("{} {}", what, c.index).as_bytes());
    if let Some(p) = d.panicked() {
        return fail("panic/daemon", format!("{}: {}", what, p));
    }
    match r {
        None => fail("start/hangs", format!("{}: the daemon neither serves nor ends: {:?}", what, d.log)),
        Some(s) => {
            ensure!(s.code() == Some(0) || s.code() == Some(1), "start/status", "{}: {}", what, s);
            Ok(())
        }
    }
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    clean();
    let mut k = Check::new(&id);
    k.threads(16);
    k.assume("a killed process loses only what it had not yet written to its files, a power failure all that no sync had covered");
    match id.as_str() {
        "D01" => {
            k.level("fault_enumeration");
            k.rule("histories of two to five starts ended by SIGKILL during the start, at the moment the identity is announced or later, by SIGTERM and by SIGINT, then a final start; starts cut off, disturbed or without power at every call that changes a file; non-trivial = distinct history");
            k.family("crash", 240, 6_000, durable);
            k.floor("lives of one directory", 256);
            k.floor("fault:power", 60);
            k.floor("fault:cut", 60);
            k.family("poor", 100, 3_000, poor);
            k.family("points", 3 * 19 * POINTS.len() as u64, 3 * 22 * POINTS.len() as u64, points);
            k.family("chains", 100, 6_000, chains);
            k.floor("restarts with the same identity", 100);
            k.floor("announcements under a fault", 30);
            k.floor("starts refused under a fault", 30);
            k.floor("second daemons on the directory", 60);
        }
        "D02" => {
            k.rule("garbage, truncated, oversized, unknown, stalled and never-ending control clients, up to three times more than the process may open files, interleaved with valid commands whose effect is observed; non-trivial = distinct history");
            k.family("unfinished", 12, 400, unfinished);
            k.floor("clients of one daemon", 66_000);
            k.family("control", 48, 2_000, control);
            k.family("framing", 48, 1_500, execute);
            k.family("failing", 48, 2_000, failing);
            k.floor("long texts", 15);
            k.floor("valid commands beside an unfinished one", 8);
            k.floor("hostile control clients", 2_000);
            k.floor("valid commands executed", 50);
            k.floor("stalled control clients", 8);
            k.floor("commands given again", 48);
            k.floor("open files seen", 96);
            k.floor("hostile clients without a valid command in between", 1_000);
        }
        "D03" => {
            k.rule("commands with random identities, addresses of both families and texts given to the client program, bytes compared with an independent encoder, with nobody listening and with failing, interrupted and short writes at every write; commands whole, in pieces, in bursts and by the client given to the daemon, effects counted; non-trivial = distinct invocation or history");
            k.family("client", 500, 8_000, client);
            k.floor("texts with an escape or keyword", 200);
            k.family("zone", 8, 200, zone);
            k.family("undelivered", 240, 6_000, undelivered);
            k.family("execute", 64, 2_000, execute);
            k.floor("clients without a daemon", 100);
            k.floor("commands over a bad connection", 100);
            k.floor("socket fault:fail", 30);
            k.floor("socket fault:short", 20);
            k.floor("socket fault:intr", 8);
            k.floor("client commands compared", 300);
            k.floor("invalid invocations refused", 30);
            k.floor("commands executed", 200);
            k.floor("long texts", 20);
            k.floor("texts that are not UTF-8", 20);
        }
        "D04" => {
            k.rule("daemons stopped by SIGINT in thirteen situations (among them floods, crowds of stalled and never-ending control clients) and started again; impossible environments; non-trivial = distinct scenario instance");
            k.family("lifecycle", 143, 4_000, lifecycle);
            k.family("refuse", 12, 300, refuse);
            k.floor("graceful stops", 100);
            k.floor("scenarios", 60);
            k.floor("daemons that nobody reads", 5);
            k.floor("starts over a leftover socket", 10);
            k.floor("clients while stopping", 1_000);
            k.floor("stalled clients at a stop", 200);
            k.floor("intervals at rest", 5);
        }
        _ => {
            eprintln!("unknown property {}", id);
            std::process::exit(2);
        }
    }
    let _ = std::fs::remove_dir_all(base());
    k.finish()
}
