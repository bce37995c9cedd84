//! Runs the built programs in scratch directories and observes them from outside.
use mon::{ensure, fail, Case, Res};
use std::{
    io::{BufRead, BufReader},
    os::unix::{net::UnixStream, process::CommandExt},
    path::{Path, PathBuf},
    process::{Child, Command, ExitStatus, Stdio},
    sync::{
        atomic::{AtomicU64, Ordering},
        mpsc,
    },
    time::{Duration, Instant},
};

pub const LONG: Duration = Duration::from_secs(60);

const NOBODY: u32 = 65534;

fn is_root() -> bool {
    unsafe { libc::geteuid() == 0 }
}

/// A file that every program under test may read.
pub fn helper(name: &str) -> PathBuf {
    static ONCE: std::sync::Once = std::sync::Once::new();
    let at = base().join(name);
    ONCE.call_once(|| {
        std::fs::create_dir_all(base()).expect("scratch");
        std::fs::copy(PathBuf::from("/verif/target/release").join(name), &at).expect("copy of a helper");
        mode(&at, 0o755);
    });
    at
}

/// A program under test, run by a user who can write to nothing but its scratch directory.
pub fn program(name: &str) -> Command {
    static COPIES: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(vec![]);
    let at = base().join("bin").join(name);
    let mut copies = COPIES.lock().unwrap();
    if !copies.iter().any(|n| n == name) {
        let from = PathBuf::from(std::env::var("VRU_BIN_DIR").unwrap_or_else(|_| "/verif/target/debug".into())).join(name);
        std::fs::create_dir_all(base().join("bin")).expect("scratch");
        std::fs::copy(&from, &at).expect("copy of the program under test");
        mode(&base().join("bin"), 0o755);
        mode(&at, 0o755);
        copies.push(name.to_string());
    }
    drop(copies);
    let mut cmd = Command::new(at);
    unprivileged(&mut cmd);
    cmd
}

fn unprivileged(cmd: &mut Command) {
    use std::os::unix::process::CommandExt;
    if is_root() {
        cmd.uid(NOBODY).gid(NOBODY);
    }
}

pub fn mode(p: &Path, m: u32) {
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).expect("permissions");
}

/// All scratch of this process.
pub fn base() -> PathBuf {
    PathBuf::from(format!("/tmp/chk-node-{}", std::process::id()))
}

/// The address of a peer that never answers: a listener whose queue is full.
pub fn silent() -> Option<std::net::SocketAddr> {
    use std::net::{TcpListener, TcpStream};
    use std::os::fd::{FromRawFd, IntoRawFd};
    static S: std::sync::OnceLock<Option<(TcpListener, Vec<TcpStream>)>> = std::sync::OnceLock::new();
    let s = S.get_or_init(|| {
        let l = TcpListener::bind("127.0.0.1:0").expect("listener");
        let l = unsafe {
            let fd = l.into_raw_fd();
            // again, with the shortest queue
            assert_eq!(libc::listen(fd, 0), 0);
            TcpListener::from_raw_fd(fd)
        };
        let a = l.local_addr().unwrap();
        let mut queue = vec![];
        for _ in 0..16 {
            match TcpStream::connect_timeout(&a, Duration::from_millis(300)) {
                Ok(s) => queue.push(s),
                Err(e) if e.kind() == std::io::ErrorKind::TimedOut => return Some((l, queue)),
                Err(_) => return None,
            }
        }
        None
    });
    s.as_ref().map(|s| s.0.local_addr().unwrap())
}

/// A scratch directory, removed on drop.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        use std::os::unix::ffi::OsStrExt;
        let n = N.fetch_add(1, Ordering::SeqCst);
        let mut p = base();
        // a directory may have any name
        let suffix: &[u8] = match n % 8 {
            0 => b" a b",
            1 => "-\u{e9}\u{6f22}".as_bytes(),
            2 => b"\xff\xfe",
            3 => b"%20'\"$",
            _ => b"",
        };
        p.push(std::ffi::OsStr::from_bytes(&[n.to_string().as_bytes(), suffix].concat()));
        std::fs::create_dir_all(&p).expect("scratch");
        mode(&base(), 0o755);
        mode(&p, 0o755);
        if is_root() {
            std::os::unix::fs::chown(&p, Some(NOBODY), Some(NOBODY)).expect("chown");
        }
        Scratch(p)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Remove what earlier runs that ended abruptly left.
pub fn clean() {
    if let Ok(d) = std::fs::read_dir("/tmp") {
        for e in d.flatten() {
            let n = e.file_name().to_string_lossy().to_string();
            if let Some(pid) = n.strip_prefix("chk-node-") {
                if pid.parse::<u32>().is_ok() && !Path::new("/proc").join(pid).exists() {
                    let _ = std::fs::remove_dir_all(e.path());
                }
            }
        }
    }
}

pub fn until(limit: Duration, mut f: impl FnMut() -> bool) -> bool {
    let t = Instant::now();
    loop {
        if f() {
            return true;
        }
        if t.elapsed() > limit {
            return false;
        }
        std::thread::sleep(Duration::from_millis(1));
    }
}

pub use mon::free_port;

/// Is anybody listening on the port? (Observed without connecting.)
pub fn listening(port: u16) -> bool {
    let t = std::fs::read_to_string("/proc/self/net/tcp").unwrap_or_default();
    let want = format!(":{:04X}", port);
    t.lines().any(|l| {
        let mut f = l.split_whitespace();
        f.nth(1).is_some_and(|a| a.ends_with(&want)) && f.nth(1) == Some("0A")
    })
}

/// Does any socket have the port for its own?
fn in_use(port: u16) -> bool {
    let want = format!(":{:04X}", port);
    ["tcp", "tcp6"].iter().any(|f| {
        let t = std::fs::read_to_string(format!("/proc/self/net/{}", f)).unwrap_or_default();
        t.lines().any(|l| l.split_whitespace().nth(1).is_some_and(|a| a.ends_with(&want)))
    })
}

pub struct Daemon {
    pub child: Child,
    pub dir: PathBuf,
    pub port: u16,
    lines: mpsc::Receiver<String>,
    pub log: Vec<String>,
    deaf: u8,
}

impl Drop for Daemon {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// The identity in a line of output: 33 bytes in base64.
fn identity_in(l: &str) -> Option<String> {
    l.split(|c: char| !(c.is_ascii_alphanumeric() || c == '+' || c == '/' || c == '='))
        .find(|t| t.len() == 44 && base64::decode(t).is_ok_and(|b| b.len() == 33))
        .map(|t| t.to_string())
}

/// What a start has to do with.
#[derive(Default)]
pub struct Env<'a> {
    /// at most so many open files
    pub files: Option<u64>,
    /// the disk is full when a file has reached this size
    pub size: Option<u64>,
    pub faults: Option<&'a Faults>,
    /// waiting for, accepting and reading control clients fails now and then, and where it is noted
    pub control: Option<(u64, &'a Path)>,
    /// nobody reads its output (1) and its messages (2) any more once it has told its identity
    pub deaf: u8,
}

/// A disturbance at the n-th call that changes a file, see the crate `faults`.
pub struct Faults {
    pub kind: &'static str,
    pub at: u64,
    pub p: u64,
    log: PathBuf,
}

impl std::fmt::Display for Faults {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}:{}:{}", self.kind, self.at, self.p)
    }
}

impl Faults {
    pub fn new(kind: &'static str, at: u64, p: u64) -> Faults {
        static N: AtomicU64 = AtomicU64::new(0);
        let log = base().join(format!("faults-{}", N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(base()).expect("scratch");
        std::fs::write(&log, b"").expect("scratch");
        mode(&log, 0o666);
        Faults { kind, at, p, log }
    }

    /// The call at which it happened, if it got so far.
    pub fn met(&self) -> Option<String> {
        let t = std::fs::read_to_string(&self.log).unwrap_or_default();
        let mut l = t.lines().filter_map(|l| l.split_once(' ')).filter(|(n, _)| n.parse() == Ok(self.at));
        let (call, rest) = l.next()?.1.split_once(' ')?;
        let name = rest.rsplit_once(' ')?.0;
        let name = if name.starts_with("pipe:") { "output" } else { name };
        // a snapshot is named after its position
        let name: Vec<&str> = name.split('.').map(|p| if p.len() == 16 { "N" } else { p }).collect();
        Some(format!("{} {}", call, name.join(".")))
    }
}

impl Faults {
    /// Has the program write to its sockets under this fault.
    pub fn on_sockets(&self, cmd: &mut Command) {
        cmd.env("FAULTS", self.to_string()).env("FAULTS_LOG", &self.log).env("FAULTS_SOCKETS", "1").env("LD_PRELOAD", helper("libfaults.so"));
    }
}

impl Drop for Faults {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.log);
    }
}

impl Daemon {
    pub fn start(dir: &Path, port: u16, files: Option<u64>) -> Daemon {
        Daemon::start_in(dir, port, Env { files, ..Env::default() })
    }

    pub fn start_in(dir: &Path, port: u16, env: Env) -> Daemon {
        let Env { files, size, faults, control, deaf } = env;
        let mut cmd = program("vru-node");
        // the same directory by its full name or seen from the working directory
        let (at, path) = match port % 4 {
            0 => (dir, PathBuf::from(".")),
            1 => (dir, Path::new("..").join(dir.file_name().unwrap())),
            2 => (dir.parent().unwrap(), PathBuf::from(dir.file_name().unwrap())),
            _ => (dir, dir.to_path_buf()),
        };
        cmd.arg("--path").arg(path).arg("--port").arg(port.to_string());
        cmd.current_dir(at).env("RUST_BACKTRACE", "0").stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
        if let Some(f) = faults {
            cmd.env("FAULTS", f.to_string()).env("FAULTS_LOG", &f.log).env("LD_PRELOAD", helper("libfaults.so"));
        }
        if let Some((n, log)) = control {
            cmd.env("FAULTS_CONTROL", n.to_string()).env("FAULTS_LOG", log).env("LD_PRELOAD", helper("libfaults.so"));
        }
        unsafe {
            cmd.pre_exec(move || {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                if let Some(n) = files {
                    let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                    libc::setrlimit(libc::RLIMIT_NOFILE, &l);
                }
                if let Some(n) = size {
                    // an error instead of a signal, as if the disk were full
                    libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                    let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                    libc::setrlimit(libc::RLIMIT_FSIZE, &l);
                }
                Ok(())
            });
        }
        let mut child = cmd.spawn().expect("spawn daemon");
        let (tx, lines) = mpsc::channel();
        let (o, e) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
        let tx2 = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(o).lines().map_while(Result::ok) {
                let last = deaf > 0 && identity_in(&l).is_some();
                let _ = tx.send(l);
                if last {
                    break;
                }
            }
        });
        if deaf > 1 {
            drop(e);
            return Daemon { child, dir: dir.to_path_buf(), port, lines, log: vec![], deaf };
        }
        std::thread::spawn(move || {
            for l in BufReader::new(e).lines().map_while(Result::ok) {
                let _ = tx2.send(format!("stderr: {}", l));
            }
        });
        Daemon { child, dir: dir.to_path_buf(), port, lines, log: vec![], deaf }
    }

    fn pump(&mut self, wait: Duration) -> bool {
        match self.lines.recv_timeout(wait) {
            Ok(l) => {
                self.log.push(l);
                true
            }
            Err(_) => false,
        }
    }

    pub fn drain(&mut self) {
        while self.pump(Duration::ZERO) {}
    }

    /// The announced identity; `None` if the process ended first.
    pub fn identity(&mut self) -> Res<Option<String>> {
        self.identity_within(LONG)
    }

    pub fn identity_within(&mut self, limit: Duration) -> Res<Option<String>> {
        let t = Instant::now();
        loop {
            if let Some(i) = self.log.iter().find_map(|l| identity_in(l)) {
                return Ok(Some(i));
            }
            if !self.pump(Duration::from_millis(50)) && self.ended().is_some() {
                self.drain();
                return Ok(self.log.iter().find_map(|l| identity_in(l)));
            }
            if t.elapsed() > limit {
                return fail("start/no-identity", format!("no identity announced in {:?}: {:?}", limit, self.log));
            }
        }
    }

    pub fn ended(&mut self) -> Option<ExitStatus> {
        self.child.try_wait().ok().flatten()
    }

    pub fn ready(&mut self) -> bool {
        listening(self.port) && self.dir.join("ctrl.sock").exists()
    }

    /// It ended because somebody else took its port meanwhile, which the evidence is: the port is listened on
    /// although the process is gone.
    pub fn port_taken(&mut self) -> bool {
        self.ended().is_some() && (self.deaf > 0 || self.log.iter().any(|l| l.to_lowercase().contains("in use"))) && in_use(self.port)
    }

    /// Start and wait until it serves; the port may have been taken by somebody else.
    pub fn serve(c: &mut Case, dir: &Path, files: Option<u64>) -> Res<(Daemon, String)> {
        Daemon::serve_in(c, dir, || Env { files, ..Env::default() })
    }

    pub fn serve_in<'a>(c: &mut Case, dir: &Path, env: impl Fn() -> Env<'a>) -> Res<(Daemon, String)> {
        for _ in 0..20 {
            let mut d = Daemon::start_in(dir, free_port(), env());
            let Some(id) = d.identity()? else {
                d.drain();
                return fail("start/failed", format!("{:?}: {:?}", d.ended(), d.log));
            };
            let t = Instant::now();
            loop {
                if d.ready() && d.connect().is_some() {
                    c.count("daemons started", 1);
                    return Ok((d, id));
                }
                if let Some(s) = d.ended() {
                    d.drain();
                    if d.port_taken() {
                        break;
                    }
                    return fail("start/failed", format!("{}: {:?}", s, d.log));
                }
                if t.elapsed() > LONG {
                    return fail("start/not-serving", format!("not serving after {:?}: {:?}", LONG, d.log));
                }
                std::thread::sleep(Duration::from_millis(2));
            }
        }
        fail("start/failed", "no free port in 20 attempts")
    }

    pub fn connect(&self) -> Option<UnixStream> {
        UnixStream::connect(self.dir.join("ctrl.sock")).ok()
    }

    pub fn signal(&self, s: i32) {
        unsafe { libc::kill(self.child.id() as i32, s) };
    }

    pub fn wait_end(&mut self, limit: Duration) -> Option<ExitStatus> {
        let t = Instant::now();
        loop {
            if let Some(s) = self.ended() {
                // give the readers a moment to deliver the rest of the output
                while self.pump(Duration::from_millis(5)) {}
                return Some(s);
            }
            if t.elapsed() > limit {
                self.drain();
                return None;
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }

    pub fn panicked(&self) -> Option<String> {
        self.log.iter().find(|l| l.contains("panicked at")).cloned()
    }

    /// Processor time used so far, in seconds.
    pub fn cpu(&self) -> f64 {
        let t = std::fs::read_to_string(format!("/proc/{}/stat", self.child.id())).unwrap_or_default();
        let f: Vec<&str> = t.rsplit(')').next().unwrap_or("").split_whitespace().collect();
        // utime and stime, in hundredths of a second
        [11, 12].iter().filter_map(|i| f.get(*i)?.parse::<f64>().ok()).sum::<f64>() / 100.0
    }

    /// Resident memory at its highest, in bytes.
    pub fn memory(&self) -> u64 {
        let t = std::fs::read_to_string(format!("/proc/{}/status", self.child.id())).unwrap_or_default();
        t.lines().find(|l| l.starts_with("VmHWM:")).and_then(|l| l.split_whitespace().nth(1)).and_then(|k| k.parse::<u64>().ok()).unwrap_or(0) << 10
    }

    pub fn fds(&self) -> usize {
        // only its own user may look
        let mut cmd = Command::new("/bin/ls");
        unprivileged(&mut cmd);
        let out = cmd.current_dir("/").arg(format!("/proc/{}/fd", self.child.id())).stdin(Stdio::null()).stderr(Stdio::null()).output();
        out.map(|o| o.stdout.iter().filter(|b| **b == b'\n').count()).unwrap_or(0)
    }

    /// It serves, has not panicked, and is the same process.
    pub fn healthy(&mut self, after: &str) -> Res {
        self.drain();
        if let Some(p) = self.panicked() {
            return fail("panic/daemon", format!("{} after {}", p, after));
        }
        if let Some(s) = self.ended() {
            self.drain();
            return fail("daemon/died", format!("{} after {}: {:?}", s, after, self.log));
        }
        ensure!(listening(self.port), "daemon/not-listening", "the node no longer listens after {}: {:?}", after, self.log);
        Ok(())
    }

    /// Graceful stop by interrupt.
    pub fn interrupt(mut self, c: &mut Case, after: &str) -> Res<Vec<String>> {
        self.signal(libc::SIGINT);
        let t = Instant::now();
        match self.wait_end(LONG) {
            None => fail("stop/stuck", format!("SIGINT did not end the daemon in {:?} after {}: {:?}", LONG, after, self.log)),
            Some(s) => {
                if let Some(p) = self.panicked() {
                    return fail("panic/daemon", format!("{} after {}", p, after));
                }
                ensure!(s.code() == Some(0), "stop/status", "ended with {} after {}: {:?}", s, after, self.log);
                ensure!(t.elapsed() < Duration::from_secs(30), "stop/slow", "took {:?} after {}", t.elapsed(), after);
                c.count("graceful stops", 1);
                Ok(std::mem::take(&mut self.log))
            }
        }
    }
}
