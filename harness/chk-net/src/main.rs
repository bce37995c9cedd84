mod inject;
mod tcp;
mod udp;
use mon::{fail, Check, Res};
use std::{
    sync::mpsc,
    time::{Duration, Instant},
};

/// Anything that normally takes at most two seconds and is not done after this time never is.
pub const LONG: Duration = Duration::from_secs(40);

/// Wait for a condition.
pub fn until(limit: Duration, mut f: impl FnMut() -> bool) -> bool {
    let t = Instant::now();
    loop {
        if f() {
            return true;
        }
        if t.elapsed() > limit {
            return false;
        }
        std::thread::sleep(Duration::from_millis(1));
    }
}

/// Run on another thread; `None` if it is not done in time, `Some(None)` if it panicked.
pub fn timed<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> Option<Option<(T, Duration)>> {
    let (tx, rx) = mpsc::channel();
    let t = Instant::now();
    std::thread::Builder::new()
        .name("harness-timed".into())
        .spawn(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok();
            let _ = tx.send(r);
        })
        .expect("spawn");
    match rx.recv_timeout(LONG) {
        Ok(r) => Some(r.map(|v| (v, t.elapsed()))),
        Err(_) => None,
    }
}

/// A panic on any thread of a node violates every property of the node.
pub fn no_panics() -> Res {
    let v: Vec<_> = mon::drain_panics().into_iter().filter(|(n, _)| n.starts_with("node-")).collect();
    match v.first() {
        Some((n, m)) => fail("panic/node-thread", format!("thread {}: {}", n, m)),
        None => Ok(()),
    }
}

/// Log records are formatted, as in a deployment that keeps a log.
struct Log;
pub static RECORDS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let t = format!("{} {}", r.target(), r.args());
        RECORDS.fetch_add(1 + (t.is_empty() as u64), std::sync::atomic::Ordering::Relaxed);
    }
    fn flush(&self) {}
}
static LOG: Log = Log;

extern "C" fn nop(_: libc::c_int) {}

pub fn install_signal() {
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = nop as *const () as usize;
        a.sa_flags = 0; // no SA_RESTART: waits are interrupted
        libc::sigaction(libc::SIGUSR1, &a, std::ptr::null_mut());
    }
}

/// Interrupt the waits of all node threads of this process.
pub fn interrupt_nodes() -> u64 {
    let mut n = 0;
    if let Ok(d) = std::fs::read_dir("/proc/self/task") {
        for e in d.flatten() {
            let name = std::fs::read_to_string(e.path().join("comm")).unwrap_or_default();
            if name.trim() == "node-main" {
                if let Ok(tid) = e.file_name().to_string_lossy().parse::<i64>() {
                    unsafe { libc::syscall(libc::SYS_tgkill, libc::getpid(), tid, libc::SIGUSR1) };
                    n += 1;
                }
            }
        }
    }
    n
}

/// Threads of nodes in this process.
pub fn node_threads() -> usize {
    let d = std::fs::read_dir("/proc/self/task").map(|d| d.flatten().collect::<Vec<_>>()).unwrap_or_default();
    d.iter().filter(|e| std::fs::read_to_string(e.path().join("comm")).unwrap_or_default().starts_with("node-")).count()
}

/// Processor time of all threads but those that read events, in nanoseconds.
fn cpu() -> u64 {
    let mut t = 0;
    if let Ok(d) = std::fs::read_dir("/proc/self/task") {
        for e in d.flatten() {
            let name = std::fs::read_to_string(e.path().join("comm")).unwrap_or_default();
            if name.trim() != "harness-events" {
                let s = std::fs::read_to_string(e.path().join("schedstat")).unwrap_or_default();
                t += s.split_whitespace().next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            }
        }
    }
    t
}

/// Nothing happens: the processor is hardly used.
pub fn at_rest(c: &mut mon::Case) -> Res {
    std::thread::sleep(Duration::from_millis(500));
    let mut used = vec![];
    for _ in 0..3 {
        let (a, t) = (cpu(), std::time::Instant::now());
        std::thread::sleep(Duration::from_millis(2_500));
        let share = cpu().saturating_sub(a) as f64 / t.elapsed().as_nanos() as f64;
        used.push(share);
        c.count("intervals at rest", 1);
        // one spinning thread takes all of a processor, or the better part of one
        if share < 0.2 {
            return Ok(());
        }
    }
    fail("rest/busy", format!("nodes at rest use {:.2?} processors", used))
}

pub fn open_files() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let mut k = Check::new(&id);
    install_signal();
    let _ = log::set_logger(&LOG).map(|()| log::set_max_level(log::LevelFilter::Trace));
    k.assume("the loopback network of the kernel delivers datagrams in order unless its drop counter says otherwise");
    match id.as_str() {
        "U01" => {
            k.threads(64);
            k.rule("sequences of datagrams of 0..65507 bytes from one to four sockets, one sender or concurrent senders, with structured contents, read at once or after thousands have arrived; non-trivial = distinct (sizes, contents) sequence");
            k.floor("datagrams to one node", 66_000);
            k.family("sequence", 400, 12_000, |c| if c.index % 400 == 0 { udp::marathon(c) } else { udp::accounting(c) });
            k.family("concurrent", 200, 6_000, udp::concurrent);
            k.family("backlog", 24, 600, udp::backlog);
            k.family("faulty", 200, 6_000, udp::faulty);
            k.family("idle", 48, 1_000, udp::idle);
            k.floor("datagrams accounted for", 5_000);
            k.floor("backlogged datagrams", 10_000);
            k.floor("wrong size reported", 1_000);
        }
        "U02" => {
            k.threads(64);
            k.rule("random histories of dials and datagrams (also the node's own, sent back) over up to four addresses that share ports or hosts, waited for step by step or in batches, compared with a reference model; non-trivial = distinct history");
            k.family("history", 500, 15_000, |c| if c.index % 250 == 0 { udp::very_many(c) } else { udp::dial(c) });
            k.family("many", 16, 500, udp::many);
            k.family("idle", 48, 1_000, udp::idle);
            k.floor("seconds left alone", 150);
            k.floor("handshakes received", 500);
            k.floor("dials of one node", 640);
            k.floor("duplicate dial refused", 100);
            k.floor("sockets that share a port", 100);
            k.floor("reflected datagrams", 100);
        }
        "U03" => {
            k.threads(64);
            k.rule("nodes stopped in seven states (idle, after traffic, with connections, with pending dials, under traffic, after local commands, interrupted by signals) or with their events unread or dropped, joined and re-bound, threads and files of the process compared; non-trivial = distinct (state, load)");
            k.family("shutdown", 240, 7_000, |c| udp::shutdown(c, false));
            k.family("interrupted", 64, 2_000, |c| udp::shutdown(c, true));
            k.family("unread", 64, 2_000, udp::shutdown_unread);
            k.family("start", 96, 1_000, udp::start_fails);
            k.family("idle", 48, 1_000, udp::idle);
            k.family("rest", 1, 4, udp::rest);
            k.family("leftovers", 1, 1, udp::leftovers);
            k.floor("seconds left alone", 150);
            k.floor("intervals at rest", 1);
            k.floor("processes found clean", 1);
            k.floor("stops with events unread", 16);
            k.floor("stops with the events dropped", 16);
            k.floor("interruptions", 64);
            k.floor("nodes stopped", 100);
            k.floor("ports bound again", 100);
        }
        "U04" => {
            k.threads(64);
            k.rule("random commands (known, unknown, repeated destinations; odd addresses; large texts; before and after the stop) interleaved with traffic; non-trivial = distinct command history");
            k.family("commands", 400, 12_000, udp::commands);
            k.family("unsendable", 160, 4_000, udp::unsendable);
            k.floor("local commands to a peer", 200);
            k.floor("liveness confirmed", 200);
        }
        "T01" => {
            k.threads(64);
            k.rule("nodes spawned on free and taken ports and stopped by join, by flag or both, idle, after commands and under signal interruption; inbound connections; non-trivial = distinct scenario instance");
            k.family("lifecycle", 240, 7_000, |c| tcp::lifecycle(c, false));
            k.family("interrupted", 64, 2_000, |c| tcp::lifecycle(c, true));
            k.floor("interruptions", 64);
            k.family("inbound", 8, 200, tcp::inbound);
            k.family("start", 160, 2_000, tcp::start_fails);
            k.family("unacceptable", 160, 4_000, tcp::unacceptable);
            k.family("unread", 64, 2_000, tcp::unread);
            k.family("idle", 48, 1_000, tcp::idle);
            k.family("rest", 1, 4, tcp::rest);
            k.family("leftovers", 1, 1, tcp::leftovers);
            k.floor("seconds left alone", 150);
            k.floor("intervals at rest", 1);
            k.floor("processes found clean", 1);
            k.floor("stops with events unread", 16);
            k.floor("stops with the events dropped", 16);
            k.floor("nodes stopped", 100);
            k.floor("taken port refused", 20);
        }
        "T02" => {
            k.threads(64);
            k.rule("random sequences of connect commands to live, refusing and unreachable addresses and of local commands; non-trivial = distinct sequence");
            k.family("marathon", 2, 20, tcp::marathon);
            k.floor("commands to one node", 66_000);
            k.family("connect", 300, 10_000, tcp::connect);
            k.family("long", 24, 800, tcp::connect_long);
            k.family("failing", 200, 6_000, tcp::failing);
            k.family("unanswered", 40, 1_000, tcp::unanswered);
            k.family("attempts", 4, 40, tcp::attempts);
            k.family("unread", 32, 1_000, tcp::unread);
            k.floor("connections observed", 300);
            if std::net::TcpListener::bind("[::1]:0").is_ok() {
                k.floor("IPv6 connections observed", 50);
            }
            k.floor("failing addresses reported", 50);
        }
        _ => {
            eprintln!("unknown property {}", id);
            std::process::exit(2);
        }
    }
    k.finish()
}
