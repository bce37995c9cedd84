//! The system calls of nodes, seen and failed from within this process.
//!
//! The functions below take the place of libc's in this executable. A call is assigned to a node by
//! the port its socket is bound to, or by where it leads.
#![allow(invalid_runtime_symbol_definitions)]
use std::{
    cell::{Cell, RefCell},
    net::{IpAddr, SocketAddr},
    sync::{
        atomic::{AtomicUsize, Ordering::SeqCst},
        Arc, Mutex,
    },
};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Call {
    SendTo,
    RecvFrom,
    Poll,
    Accept,
    Connect,
}

pub struct Plan {
    call: Call,
    /// of the node, or the one connected to
    port: u16,
    /// calls that pass first
    skip: usize,
    /// calls that fail with this error then
    times: usize,
    errno: i32,
    /// what happens to all later ones, if not nothing
    then: Option<i32>,
    calls: AtomicUsize,
    failed: AtomicUsize,
    /// where a connection has to lead
    at: Option<SocketAddr>,
    /// of all calls, where they led
    to: Mutex<Vec<Option<SocketAddr>>>,
}

static ACTIVE: AtomicUsize = AtomicUsize::new(0);
static PLANS: Mutex<Vec<Arc<Plan>>> = Mutex::new(Vec::new());

/// In force while it lives.
pub struct Guard(pub Arc<Plan>);

impl Drop for Guard {
    fn drop(&mut self) {
        let mut p = PLANS.lock().unwrap_or_else(|e| e.into_inner());
        p.retain(|x| !Arc::ptr_eq(x, &self.0));
        ACTIVE.store(p.len(), SeqCst);
    }
}

pub fn fail(call: Call, port: u16, skip: usize, times: usize, errno: i32, then: Option<i32>) -> Guard {
    add(call, port, None, skip, times, errno, then)
}

/// Connections to this address fail.
pub fn fail_connect(at: SocketAddr, times: usize, errno: i32) -> Guard {
    add(Call::Connect, at.port(), Some(at), 0, times, errno, None)
}

fn add(call: Call, port: u16, at: Option<SocketAddr>, skip: usize, times: usize, errno: i32, then: Option<i32>) -> Guard {
    let (calls, failed) = (AtomicUsize::new(0), AtomicUsize::new(0));
    let plan = Arc::new(Plan { call, port, skip, times, errno, then, calls, failed, at, to: Mutex::default() });
    let mut p = PLANS.lock().unwrap_or_else(|e| e.into_inner());
    // the newest is asked first
    p.insert(0, plan.clone());
    ACTIVE.store(p.len(), SeqCst);
    Guard(plan)
}

/// Nothing fails, calls are noted.
pub fn watch(call: Call, port: u16) -> Guard {
    fail(call, port, 0, 0, 0, None)
}

impl Guard {
    pub fn calls(&self) -> usize {
        self.0.calls.load(SeqCst)
    }
    /// How many calls have failed with the chosen error.
    pub fn failed(&self) -> usize {
        self.0.failed.load(SeqCst)
    }
    pub fn to(&self) -> Vec<Option<SocketAddr>> {
        self.0.to.lock().unwrap_or_else(|e| e.into_inner()).clone()
    }
}

thread_local! {
    /// Calls of this thread that open something: how many pass, with what the next one fails.
    static OPENING: Cell<Option<(u64, i32)>> = const { Cell::new(None) };
    static CONNECTS: RefCell<Option<Vec<SocketAddr>>> = const { RefCell::new(None) };
}

/// Where this thread connects to while it runs `f`.
pub fn connects<T>(f: impl FnOnce() -> T) -> (T, Vec<SocketAddr>) {
    CONNECTS.with(|c| *c.borrow_mut() = Some(vec![]));
    ACTIVE_WATCHERS.fetch_add(1, SeqCst);
    let r = f();
    ACTIVE_WATCHERS.fetch_sub(1, SeqCst);
    let v = CONNECTS.with(|c| c.borrow_mut().take()).unwrap_or_default();
    (r, v)
}

/// Runs `f` on this thread with one of the calls failing by which something is opened; tells
/// whether it got that far.
pub fn opening<T>(pass: u64, errno: i32, f: impl FnOnce() -> T) -> (T, bool) {
    OPENING.with(|o| o.set(Some((pass, errno))));
    let r = f();
    (r, OPENING.with(|o| o.take()).is_none())
}

/// The error with which this thread's call is to fail.
fn opens() -> Option<i32> {
    OPENING.try_with(|o| match o.get() {
        Some((0, e)) => {
            o.set(None);
            Some(e)
        }
        Some((n, e)) => {
            o.set(Some((n - 1, e)));
            None
        }
        None => None,
    })
    .ok()
    .flatten()
}

static ACTIVE_WATCHERS: AtomicUsize = AtomicUsize::new(0);

unsafe fn address(a: *const libc::sockaddr) -> Option<SocketAddr> {
    if a.is_null() {
        return None;
    }
    match (*a).sa_family as i32 {
        libc::AF_INET => {
            let a = &*(a as *const libc::sockaddr_in);
            Some((a.sin_addr.s_addr.to_ne_bytes(), u16::from_be(a.sin_port)).into())
        }
        libc::AF_INET6 => {
            let a = &*(a as *const libc::sockaddr_in6);
            Some((a.sin6_addr.s6_addr, u16::from_be(a.sin6_port)).into())
        }
        _ => None,
    }
}

/// The same place.
pub fn same(a: &SocketAddr, b: &SocketAddr) -> bool {
    let ip = |a: &SocketAddr| match a.ip() {
        IpAddr::V6(x) => x.to_ipv4_mapped().map_or(IpAddr::V6(x), IpAddr::V4),
        x => x,
    };
    a.port() == b.port() && ip(a) == ip(b)
}

unsafe fn own_port(fd: libc::c_int) -> Option<u16> {
    let mut s: libc::sockaddr_storage = std::mem::zeroed();
    let mut l = std::mem::size_of_val(&s) as libc::socklen_t;
    if libc::getsockname(fd, &mut s as *mut _ as *mut _, &mut l) != 0 {
        return None;
    }
    address(&s as *const _ as *const _).map(|a| a.port())
}

/// The error with which the call is to fail.
unsafe fn decide(call: Call, fd: libc::c_int, to: *const libc::sockaddr) -> Option<i32> {
    let errno = *libc::__errno_location();
    let port = match call {
        Call::Connect => address(to).map(|a| a.port()),
        _ => own_port(fd),
    };
    let mut verdict = None;
    if let Some(port) = port {
        for p in PLANS.lock().unwrap_or_else(|e| e.into_inner()).iter() {
            let there = p.at.map_or(true, |at| address(to).map_or(false, |a| same(&at, &a)));
            if p.call == call && p.port == port && there {
                let n = p.calls.fetch_add(1, SeqCst);
                p.to.lock().unwrap_or_else(|e| e.into_inner()).push(address(to));
                let v = if n < p.skip {
                    None
                } else if n - p.skip < p.times {
                    Some(p.errno)
                } else {
                    p.then
                };
                if verdict.is_none() && v.is_some() {
                    verdict = v;
                    p.failed.fetch_add((n < p.skip + p.times) as usize, SeqCst);
                }
            }
        }
    }
    *libc::__errno_location() = errno;
    verdict
}

macro_rules! faulty {
    ($call:expr, $fd:expr, $to:expr, $real:expr) => {{
        if ACTIVE.load(SeqCst) > 0 {
            if let Some(e) = decide($call, $fd, $to) {
                *libc::__errno_location() = e;
                return -1;
            }
        }
        $real as _
    }};
}

const NOWHERE: *const libc::sockaddr = std::ptr::null();

#[no_mangle]
pub unsafe extern "C" fn sendto(
    fd: libc::c_int,
    b: *const libc::c_void,
    n: libc::size_t,
    flags: libc::c_int,
    to: *const libc::sockaddr,
    l: libc::socklen_t,
) -> libc::ssize_t {
    faulty!(Call::SendTo, fd, to, libc::syscall(libc::SYS_sendto, fd, b, n, flags, to, l))
}

#[no_mangle]
pub unsafe extern "C" fn recvfrom(
    fd: libc::c_int,
    b: *mut libc::c_void,
    n: libc::size_t,
    flags: libc::c_int,
    from: *mut libc::sockaddr,
    l: *mut libc::socklen_t,
) -> libc::ssize_t {
    faulty!(Call::RecvFrom, fd, NOWHERE, libc::syscall(libc::SYS_recvfrom, fd, b, n, flags, from, l))
}

#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: libc::c_int) -> libc::c_int {
    let fd = if n > 0 && !fds.is_null() { (*fds).fd } else { -1 };
    faulty!(Call::Poll, fd, NOWHERE, libc::syscall(libc::SYS_poll, fds, n, timeout))
}

#[no_mangle]
pub unsafe extern "C" fn accept4(
    fd: libc::c_int,
    from: *mut libc::sockaddr,
    l: *mut libc::socklen_t,
    flags: libc::c_int,
) -> libc::c_int {
    faulty!(Call::Accept, fd, NOWHERE, libc::syscall(libc::SYS_accept4, fd, from, l, flags))
}

#[no_mangle]
pub unsafe extern "C" fn connect(fd: libc::c_int, to: *const libc::sockaddr, l: libc::socklen_t) -> libc::c_int {
    if ACTIVE_WATCHERS.load(SeqCst) > 0 {
        let _ = CONNECTS.try_with(|c| {
            if let (Ok(mut c), Some(a)) = (c.try_borrow_mut(), address(to)) {
                if let Some(v) = c.as_mut() {
                    v.push(a);
                }
            }
        });
    }
    faulty!(Call::Connect, fd, to, libc::syscall(libc::SYS_connect, fd, to, l))
}

macro_rules! opener {
    ($name:ident($($p:ident: $t:ty),*) -> $r:ty, $n:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($p: $t),*) -> $r {
            if let Some(e) = opens() {
                *libc::__errno_location() = e;
                return -1;
            }
            libc::syscall($n, $($p),*) as _
        }
    };
}
opener!(socket(domain: libc::c_int, kind: libc::c_int, protocol: libc::c_int) -> libc::c_int, libc::SYS_socket);
opener!(bind(fd: libc::c_int, a: *const libc::sockaddr, l: libc::socklen_t) -> libc::c_int, libc::SYS_bind);
opener!(listen(fd: libc::c_int, n: libc::c_int) -> libc::c_int, libc::SYS_listen);
opener!(epoll_create1(flags: libc::c_int) -> libc::c_int, libc::SYS_epoll_create1);
opener!(epoll_ctl(fd: libc::c_int, op: libc::c_int, of: libc::c_int, e: *mut libc::epoll_event) -> libc::c_int, libc::SYS_epoll_ctl);
opener!(eventfd(n: libc::c_uint, flags: libc::c_int) -> libc::c_int, libc::SYS_eventfd2);
opener!(setsockopt(fd: libc::c_int, level: libc::c_int, name: libc::c_int, v: *const libc::c_void, l: libc::socklen_t) -> libc::c_int, libc::SYS_setsockopt);
