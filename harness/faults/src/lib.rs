//! Preloaded into a program under test: ends or disturbs it at the n-th call that changes a file.
//!
//! FAULTS=<kind>:<n>[:<p>]   kind: kill   end before the call
//!                                 after  end after the call
//!                                 cut    write p/256 of the data, then end
//!                                 fail   the call returns the error p
//!                                 full   this and every later call that needs space returns ENOSPC
//!                                 short  every write from the n-th on writes only a part
//!                                 power  after the call everything ends, and what no sync had covered is lost:
//!                                        p&1 writes at a position, p&2 the contents of files written in sequence
//!                                 intr   the call returns EINTR once (only where it can happen)
//! FAULTS_LOG=<path>         one line for each call
//! FAULTS_SOCKETS=1          writes to sockets count as well
//! FAULTS_CONTROL=<n>        waiting for, accepting and reading local connections fails now and then, in a way that
//!                           depends on n and that passes: no connection and no byte is lost by it
#![allow(invalid_runtime_symbol_definitions)]
use libc::{c_char, c_int, c_uint, c_void, mode_t, off64_t, size_t, ssize_t};
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::SeqCst};

static COUNT: AtomicI64 = AtomicI64::new(0);
static LOG: AtomicI64 = AtomicI64::new(-1);

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    None,
    Kill,
    After,
    Cut,
    Fail,
    Full,
    Short,
    Intr,
    Power,
}

#[derive(Clone, Copy)]
struct Plan {
    kind: Kind,
    at: i64,
    p: i64,
}

unsafe fn number(p: &mut *const c_char) -> i64 {
    let mut n = 0;
    while (**p as u8).is_ascii_digit() {
        n = n * 10 + (**p as u8 - b'0') as i64;
        *p = p.add(1);
    }
    n
}

unsafe fn plan() -> Plan {
    let none = Plan { kind: Kind::None, at: 0, p: 0 };
    let mut e: *const c_char = libc::getenv(c"FAULTS".as_ptr());
    if e.is_null() {
        return none;
    }
    let kinds = [
        (c"kill:", Kind::Kill),
        (c"after:", Kind::After),
        (c"cut:", Kind::Cut),
        (c"fail:", Kind::Fail),
        (c"full:", Kind::Full),
        (c"short:", Kind::Short),
        (c"intr:", Kind::Intr),
        (c"power:", Kind::Power),
    ];
    for (name, kind) in kinds {
        let l = name.to_bytes().len();
        if libc::strncmp(e, name.as_ptr(), l) == 0 {
            e = e.add(l);
            let at = number(&mut e);
            let mut p = 0;
            if *e as u8 == b':' {
                e = e.add(1);
                p = number(&mut e);
            }
            return Plan { kind, at, p };
        }
    }
    none
}

unsafe fn end() -> ! {
    let p = plan();
    if p.kind == Kind::Power {
        lose(p.p);
    }
    libc::syscall(libc::SYS_kill, libc::getpid(), libc::SIGKILL);
    loop {
        libc::pause();
    }
}

/// What was written and not yet synced.
struct Unsynced {
    /// a descriptor of our own
    fd: c_int,
    ino: u64,
    /// written at a position: what was there before, the size of the file then, how much was written
    before: Option<(off64_t, Vec<u8>, off64_t, usize)>,
}

static UNSYNCED: std::sync::Mutex<Vec<Unsynced>> = std::sync::Mutex::new(Vec::new());

unsafe fn stat(fd: c_int) -> (u64, off64_t) {
    let mut s: libc::stat64 = std::mem::zeroed();
    libc::syscall(libc::SYS_fstat, fd, &mut s as *mut _);
    (s.st_ino, s.st_size)
}

unsafe fn writing(fd: c_int, at: Option<(off64_t, usize)>) {
    if plan().kind != Kind::Power || fd <= 2 {
        return;
    }
    let (ino, size) = stat(fd);
    let own = libc::syscall(libc::SYS_fcntl, fd, libc::F_DUPFD_CLOEXEC, 100) as c_int;
    let before = at.map(|(at, len)| {
        let mut b = vec![0; len];
        let n = libc::syscall(libc::SYS_pread64, fd, b.as_mut_ptr(), len, at);
        b.truncate(n.max(0) as usize);
        (at, b, size, len)
    });
    UNSYNCED.lock().unwrap().push(Unsynced { fd: own, ino, before });
}

/// All of a file, or a part of it.
unsafe fn synced(fd: c_int, part: Option<(off64_t, off64_t)>) {
    if plan().kind == Kind::Power {
        let (ino, _) = stat(fd);
        UNSYNCED.lock().unwrap().retain(|u| {
            let within = match (part, &u.before) {
                (None, _) => true,
                (Some((at, len)), Some((from, _, _, l))) => at <= *from && *from + *l as off64_t <= at + len,
                _ => false,
            };
            if u.ino == ino && within {
                libc::syscall(libc::SYS_close, u.fd);
                return false;
            }
            true
        });
    }
}

unsafe fn lose(p: i64) {
    let l = UNSYNCED.lock().unwrap();
    for u in l.iter().rev() {
        match &u.before {
            Some((at, old, size, _)) if p & 1 != 0 => {
                libc::syscall(libc::SYS_pwrite64, u.fd, old.as_ptr(), old.len(), *at);
                libc::syscall(libc::SYS_ftruncate, u.fd, *size);
            }
            None if p & 2 != 0 => {
                libc::syscall(libc::SYS_ftruncate, u.fd, 0);
            }
            _ => {}
        }
    }
}

unsafe fn note(n: i64, call: &str, what: *const c_char, fd: c_int, len: i64) {
    if LOG.load(SeqCst) == -1 {
        let path = libc::getenv(c"FAULTS_LOG".as_ptr());
        let fd = if path.is_null() { -2 } else { libc::syscall(libc::SYS_open, path, libc::O_WRONLY | libc::O_APPEND | libc::O_CLOEXEC, 0) };
        LOG.store(if fd < 0 { -2 } else { fd }, SeqCst);
    }
    let log = LOG.load(SeqCst);
    if log < 0 {
        return;
    }
    let mut name = [0u8; 512];
    let mut l = 0;
    if !what.is_null() {
        l = libc::strlen(what).min(511);
        std::ptr::copy_nonoverlapping(what as *const u8, name.as_mut_ptr(), l);
    } else if fd >= 0 {
        let mut link = [0u8; 64];
        let mut w = Out { b: &mut link, n: 0 };
        w.put(b"/proc/self/fd/");
        w.num(fd as i64);
        let r = libc::syscall(libc::SYS_readlink, link.as_ptr(), name.as_mut_ptr(), 511);
        l = r.max(0) as usize;
    }
    let from = name[..l].iter().rposition(|b| *b == b'/').map_or(0, |i| i + 1);
    let mut line = [0u8; 640];
    let mut w = Out { b: &mut line, n: 0 };
    w.num(n);
    w.put(b" ");
    w.put(call.as_bytes());
    w.put(b" ");
    w.put(&name[from..l]);
    w.put(b" ");
    w.num(len);
    w.put(b"\n");
    let k = w.n;
    libc::syscall(libc::SYS_write, log, line.as_ptr(), k);
}

struct Out<'a> {
    b: &'a mut [u8],
    n: usize,
}

impl Out<'_> {
    fn put(&mut self, s: &[u8]) {
        for c in s {
            if self.n < self.b.len() {
                self.b[self.n] = *c;
                self.n += 1;
            }
        }
    }
    fn num(&mut self, v: i64) {
        let mut d = [0u8; 20];
        let mut i = 20;
        let mut v = v.max(0);
        loop {
            i -= 1;
            d[i] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                break;
            }
        }
        self.put(&d[i..]);
    }
}

/// What to do with this call.
enum Do {
    Call,
    CallThenEnd,
    Part(usize),
    PartThenEnd(usize),
    Error(c_int),
}

unsafe fn decide(call: &str, what: *const c_char, fd: c_int, len: usize, space: bool, intr: bool) -> Do {
    let n = COUNT.fetch_add(1, SeqCst) + 1;
    let saved = *libc::__errno_location();
    note(n, call, what, fd, len as i64);
    *libc::__errno_location() = saved;
    let p = plan();
    match p.kind {
        Kind::Kill if n == p.at => end(),
        Kind::After | Kind::Power if n == p.at => Do::CallThenEnd,
        Kind::Cut if n == p.at => {
            if len == 0 {
                end()
            }
            Do::PartThenEnd(len * p.p as usize / 256)
        }
        // what cannot be said is not announced
        Kind::Fail if n == p.at && fd != 1 && fd != 2 => Do::Error(p.p as c_int),
        Kind::Full if n >= p.at && space => Do::Error(libc::ENOSPC),
        Kind::Short if n >= p.at && len > 1 => Do::Part((len * p.p as usize / 256).clamp(1, len - 1)),
        Kind::Intr if n == p.at && intr => Do::Error(libc::EINTR),
        _ => Do::Call,
    }
}

unsafe fn next(name: &std::ffi::CStr, cache: &AtomicUsize) -> usize {
    let mut f = cache.load(SeqCst);
    if f == 0 {
        f = libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) as usize;
        cache.store(f, SeqCst);
    }
    f
}

unsafe fn done<T>(d: Do, call: impl FnOnce(Option<usize>) -> T, error: T) -> T {
    match d {
        Do::Call => call(None),
        Do::CallThenEnd => {
            call(None);
            end()
        }
        Do::Part(n) => call(Some(n)),
        Do::PartThenEnd(n) => {
            if n > 0 {
                call(Some(n));
            }
            end()
        }
        Do::Error(e) => {
            *libc::__errno_location() = e;
            error
        }
    }
}

macro_rules! real {
    ($name:literal, $t:ty) => {{
        static F: AtomicUsize = AtomicUsize::new(0);
        std::mem::transmute::<usize, $t>(next($name, &F))
    }};
}

unsafe fn file(fd: c_int) -> bool {
    let mut s: libc::stat64 = std::mem::zeroed();
    libc::syscall(libc::SYS_fstat, fd, &mut s as *mut _) == 0 && (s.st_mode & libc::S_IFMT) == libc::S_IFREG
}

/// Files and the standard output count, sockets and event descriptors do not.
unsafe fn counts(fd: c_int) -> bool {
    fd <= 2 || file(fd) || !libc::getenv(c"FAULTS_SOCKETS".as_ptr()).is_null()
}

macro_rules! opener {
    ($name:ident, $c:literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
            let f = real!($c, extern "C" fn(*const c_char, c_int, c_uint) -> c_int);
            if flags & (libc::O_CREAT | libc::O_TRUNC) == 0 {
                return f(path, flags, mode);
            }
            let d = decide("open", path, -1, 0, true, true);
            done(d, |_| f(path, flags, mode), -1)
        }
    };
}
opener!(open, c"open");
opener!(open64, c"open64");

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: size_t) -> ssize_t {
    let f = real!(c"write", extern "C" fn(c_int, *const c_void, size_t) -> ssize_t);
    if !counts(fd) {
        return f(fd, buf, len);
    }
    writing(fd, None);
    let d = decide("write", std::ptr::null(), fd, len, fd > 2, true);
    done(d, |n| f(fd, buf, n.unwrap_or(len)), -1)
}

/// The standard library may write to a socket this way.
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, len: size_t, flags: c_int) -> ssize_t {
    let f = real!(c"send", extern "C" fn(c_int, *const c_void, size_t, c_int) -> ssize_t);
    if !counts(fd) {
        return f(fd, buf, len, flags);
    }
    let d = decide("write", std::ptr::null(), fd, len, fd > 2, true);
    done(d, |n| f(fd, buf, n.unwrap_or(len), flags), -1)
}

macro_rules! pwriter {
    ($name:ident, $c:literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(fd: c_int, buf: *const c_void, len: size_t, at: off64_t) -> ssize_t {
            let f = real!($c, extern "C" fn(c_int, *const c_void, size_t, off64_t) -> ssize_t);
            writing(fd, Some((at, len)));
            let d = decide("pwrite", std::ptr::null(), fd, len, true, true);
            done(d, |n| f(fd, buf, n.unwrap_or(len), at), -1)
        }
    };
}
pwriter!(pwrite, c"pwrite");
pwriter!(pwrite64, c"pwrite64");

macro_rules! truncater {
    ($name:ident, $c:literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(fd: c_int, len: off64_t) -> c_int {
            let f = real!($c, extern "C" fn(c_int, off64_t) -> c_int);
            let d = decide("truncate", std::ptr::null(), fd, 0, true, true);
            done(d, |_| f(fd, len), -1)
        }
    };
}
truncater!(ftruncate, c"ftruncate");
truncater!(ftruncate64, c"ftruncate64");

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let f = real!(c"rename", extern "C" fn(*const c_char, *const c_char) -> c_int);
    let d = decide("rename", a, -1, 0, true, false);
    done(d, |_| f(a, b), -1)
}

#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    let f = real!(c"unlink", extern "C" fn(*const c_char) -> c_int);
    let d = decide("unlink", a, -1, 0, false, false);
    done(d, |_| f(a), -1)
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, mode: mode_t) -> c_int {
    let f = real!(c"mkdir", extern "C" fn(*const c_char, mode_t) -> c_int);
    let d = decide("mkdir", a, -1, 0, true, false);
    done(d, |_| f(a, mode), -1)
}

macro_rules! syncer {
    ($name:ident, $c:literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(fd: c_int) -> c_int {
            let f = real!($c, extern "C" fn(c_int) -> c_int);
            let d = decide("sync", std::ptr::null(), fd, 0, false, true);
            done(
                d,
                |_| {
                    let r = f(fd);
                    synced(fd, None);
                    r
                },
                -1,
            )
        }
    };
}
syncer!(fsync, c"fsync");
syncer!(fdatasync, c"fdatasync");

#[no_mangle]
pub unsafe extern "C" fn sync_file_range(fd: c_int, at: off64_t, len: off64_t, flags: c_uint) -> c_int {
    let f = real!(c"sync_file_range", extern "C" fn(c_int, off64_t, off64_t, c_uint) -> c_int);
    let d = decide("sync", std::ptr::null(), fd, 0, false, false);
    done(
        d,
        |_| {
            let r = f(fd, at, len, flags);
            synced(fd, Some((at, len)));
            r
        },
        -1,
    )
}

#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, how: c_int) -> c_int {
    let f = real!(c"flock", extern "C" fn(c_int, c_int) -> c_int);
    let d = decide("lock", std::ptr::null(), fd, 0, false, false);
    done(d, |_| f(fd, how), -1)
}


/// Disturbances of local connections met so far.
static MET: AtomicI64 = AtomicI64::new(0);

unsafe fn control() -> Option<u64> {
    let mut e: *const c_char = libc::getenv(c"FAULTS_CONTROL".as_ptr());
    if e.is_null() {
        return None;
    }
    Some(number(&mut e) as u64)
}

unsafe fn local(fd: c_int) -> bool {
    let (mut v, mut l): (c_int, libc::socklen_t) = (0, 4);
    let saved = *libc::__errno_location();
    let r = libc::syscall(libc::SYS_getsockopt, fd, libc::SOL_SOCKET, libc::SO_DOMAIN, &mut v as *mut _, &mut l as *mut _);
    *libc::__errno_location() = saved;
    r == 0 && v == libc::AF_UNIX
}

/// A number that depends on the history, if local connections are disturbed and this is one.
unsafe fn chance(fd: c_int) -> Option<u64> {
    let seed = control()?;
    if !local(fd) {
        return None;
    }
    let n = MET.fetch_add(1, SeqCst) as u64;
    let mut x = (seed << 32 ^ n).wrapping_add(1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    x = (x ^ x >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x = (x ^ x >> 27).wrapping_mul(0x94d0_49bb_1331_11eb);
    Some(x ^ x >> 31)
}

unsafe fn hit(call: &str, fd: c_int, error: c_int) -> c_int {
    note(0, call, std::ptr::null(), fd, error as i64);
    *libc::__errno_location() = error;
    -1
}

unsafe fn refused(fd: c_int) -> Option<c_int> {
    let x = chance(fd)?;
    let e = [libc::EMFILE, libc::ENFILE, libc::ENOBUFS, libc::ENOMEM, libc::ECONNABORTED, libc::EPROTO, libc::EINTR, libc::EPERM];
    (x % 3 == 0).then(|| e[(x >> 8) as usize % e.len()])
}

#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, a: *mut libc::sockaddr, l: *mut libc::socklen_t, flags: c_int) -> c_int {
    let f = real!(c"accept4", extern "C" fn(c_int, *mut libc::sockaddr, *mut libc::socklen_t, c_int) -> c_int);
    match refused(fd) {
        Some(e) => hit("accept", fd, e),
        None => f(fd, a, l, flags),
    }
}

#[no_mangle]
pub unsafe extern "C" fn accept(fd: c_int, a: *mut libc::sockaddr, l: *mut libc::socklen_t) -> c_int {
    let f = real!(c"accept", extern "C" fn(c_int, *mut libc::sockaddr, *mut libc::socklen_t) -> c_int);
    match refused(fd) {
        Some(e) => hit("accept", fd, e),
        None => f(fd, a, l),
    }
}

/// An interruption is not among them, for that is how the daemon is told to end.
#[no_mangle]
pub unsafe extern "C" fn poll(p: *mut libc::pollfd, n: libc::nfds_t, timeout: c_int) -> c_int {
    let f = real!(c"poll", extern "C" fn(*mut libc::pollfd, libc::nfds_t, c_int) -> c_int);
    if n == 1 {
        let fd = (*p).fd;
        if chance(fd).is_some_and(|x| x % 5 == 0) {
            return hit("poll", fd, libc::ENOMEM);
        }
    }
    f(p, n, timeout)
}

unsafe fn part(fd: c_int, len: size_t) -> Result<size_t, c_int> {
    match chance(fd) {
        Some(x) if x % 8 == 0 => Err(libc::EINTR),
        Some(x) if x % 8 < 4 && len > 1 => {
            note(0, "short", std::ptr::null(), fd, len as i64);
            // large ones stay large, so that a long text takes no more than some hundred calls
            Ok(if len > 4096 { len - 1 - (x >> 8) as usize % 100 } else { 1 + (x >> 8) as usize % (len - 1) })
        }
        _ => Ok(len),
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, len: size_t) -> ssize_t {
    let f = real!(c"read", extern "C" fn(c_int, *mut c_void, size_t) -> ssize_t);
    match part(fd, len) {
        Ok(len) => f(fd, b, len),
        Err(e) => hit("read", fd, e) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, len: size_t, flags: c_int) -> ssize_t {
    let f = real!(c"recv", extern "C" fn(c_int, *mut c_void, size_t, c_int) -> ssize_t);
    match part(fd, len) {
        Ok(len) => f(fd, b, len, flags),
        Err(e) => hit("read", fd, e) as ssize_t,
    }
}
