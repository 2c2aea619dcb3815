//! The environment of the code under test, replaced at the libc boundary.
//!
//! The harness binary defines `read`, `recv`, `send`, `connect`, ... itself, so the calls the standard library
//! makes on behalf of the code under test arrive here. Unless this thread has an environment installed they go
//! straight to the kernel. With a file environment, reads of real files are shortened, interrupted or failed as
//! planned. With a network environment, a real but never connected socket is served by a model server running
//! in-process on a virtual clock.
//!
//! Nothing here may unwind: a panic of the harness is recorded and reported as a failure of the harness.

use libc::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct FilePlan {
    /// No read returns more than this many bytes; 0: no limit.
    pub cap: usize,
    /// No read crosses these file offsets.
    pub splits: Vec<u64>,
    /// The reads with these indices are interrupted before returning anything.
    pub intr: Vec<u64>,
    /// Every read is interrupted once.
    pub intr_all: bool,
    /// Reads fail from this offset on, with this errno.
    pub fail: Option<(u64, i32)>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct NetPlan {
    pub rcap: usize,
    pub wcap: usize,
    pub rsplits: Vec<u64>,
    pub wsplits: Vec<u64>,
    pub rintr: Vec<u64>,
    pub wintr: Vec<u64>,
    pub rintr_all: bool,
    pub wintr_all: bool,
    /// On connection `.0`, before receiving byte `.1` of the server's output, the connection fails as `.2` says.
    pub cut: Option<(usize, u64, Cut)>,
    /// On connection `.0`, this much time passes before byte `.1` of the server's output arrives.
    pub delays: Vec<(usize, u64, Duration)>,
    /// On connection `.0`, before the client's byte `.1` is accepted, the connection fails.
    pub wcut: Option<(usize, u64)>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Cut {
    Close,
    Reset,
    Silent,
}

pub enum Out {
    Data(Vec<u8>),
    /// Nothing more before this much time has passed.
    Wait(Duration),
    Close,
    Reset,
}

pub trait Peer {
    fn open(&mut self, conn: usize, out: &mut VecDeque<Out>);
    fn input(&mut self, conn: usize, bytes: &[u8], out: &mut VecDeque<Out>);
    /// The client waits and nothing is queued.
    fn idle(&mut self, _conn: usize, _out: &mut VecDeque<Out>) {}
    fn as_any(&mut self) -> &mut dyn std::any::Any;
}

#[derive(Default)]
pub struct Conn {
    pub ino: u64,
    /// Where to.
    pub addr: Option<std::net::SocketAddr>,
    pub q: VecDeque<Out>,
    pub sent: Vec<u8>,
    pub received: u64,
    pub rcvtimeo: Option<Duration>,
    pub sndtimeo: Option<Duration>,
    pub dead: bool,
    pub at_eof: bool,
    pub read_shut: bool,
    pub closed_by_client: bool,
    pub eofs: u64,
    pub silences: u64,
    pub unlimited_waits: u64,
    pub max_timeout: Duration,
    /// The shortest limit of any read.
    pub min_timeout: Option<Duration>,
    pub recvs: u64,
    pub sends: u64,
    pub writes_after_silence: u64,
}
impl Conn {
    pub fn unread(&self) -> usize {
        self.q.iter().map(|o| if let Out::Data(d) = o { d.len() } else { 0 }).sum()
    }
}

pub struct Net {
    pub plan: NetPlan,
    pub conns: Vec<Conn>,
    pub peer: Box<dyn Peer>,
    pub clock: Duration,
    pub calls: u64,
    pub max_calls: u64,
    pub refuse: bool,
    pub verdict: Option<String>,
    pending_intr_r: bool,
    pending_intr_w: bool,
}
impl Net {
    pub fn new(peer: Box<dyn Peer>, plan: NetPlan) -> Self {
        Net { plan, conns: vec![], peer, clock: Duration::ZERO, calls: 0, max_calls: 3_000_000, refuse: false, verdict: None, pending_intr_r: false, pending_intr_w: false }
    }
    fn verdict(&mut self, s: String) {
        if self.verdict.is_none() {
            self.verdict = Some(s)
        }
    }
    pub fn peer<T: 'static>(&mut self) -> &mut T {
        self.peer.as_any().downcast_mut::<T>().expect("peer type")
    }
}
struct FileEnv {
    plan: FilePlan,
    calls: u64,
    total_calls: u64,
    pending_intr: bool,
    eofs: u64,
}
#[derive(Clone, Debug, Default)]
pub struct FileLog {
    pub calls: u64,
    pub eofs: u64,
    pub spun: bool,
}
/// A file that is being written: a pipe that gets its next part only when a read would have to wait for it.
struct Grow {
    end: c_int,
    parts: std::collections::VecDeque<Vec<u8>>,
    arrived: usize,
}
impl Drop for Grow {
    fn drop(&mut self) {
        if self.end >= 0 {
            unsafe { syscall(SYS_close, self.end) };
        }
    }
}
enum Env {
    File(FileEnv),
    Grow(Grow),
    Net(Box<Net>),
}
thread_local! {
    static ENV: RefCell<Option<Env>> = const { RefCell::new(None) };
    static ENGINE: RefCell<Option<String>> = const { RefCell::new(None) };
}
const FILE_SPIN: u64 = 40_000_000;

pub fn deactivate() {
    ENV.with(|e| *e.borrow_mut() = None);
}
/// A failure of the harness inside an intercepted call, if there was one.
pub fn take_engine() -> Option<String> {
    ENGINE.with(|e| e.borrow_mut().take())
}
pub fn with_file<T>(plan: FilePlan, f: impl FnOnce() -> T) -> (T, FileLog) {
    ENV.with(|e| *e.borrow_mut() = Some(Env::File(FileEnv { plan, calls: 0, total_calls: 0, pending_intr: false, eofs: 0 })));
    let r = f();
    let env = ENV.with(|e| e.borrow_mut().take());
    let log = match env {
        Some(Env::File(x)) => FileLog { calls: x.total_calls, eofs: x.eofs, spun: x.total_calls > FILE_SPIN },
        _ => FileLog::default(),
    };
    (r, log)
}
/// Calls to the operating system in this environment so far.
pub fn calls() -> u64 {
    ENV.with(|e| match e.borrow().as_ref() {
        Some(Env::File(f)) => f.total_calls,
        Some(Env::Net(n)) => n.calls,
        _ => 0,
    })
}
/// The parts have to fit into a pipe.
pub fn grow_start(parts: Vec<Vec<u8>>) -> std::fs::File {
    use std::os::fd::FromRawFd;
    let mut fds = [0 as c_int; 2];
    unsafe {
        assert!(pipe2(fds.as_mut_ptr(), O_NONBLOCK | O_CLOEXEC) == 0, "pipe");
        ENV.with(|e| *e.borrow_mut() = Some(Env::Grow(Grow { end: fds[1], parts: parts.into(), arrived: 0 })));
        std::fs::File::from_raw_fd(fds[0])
    }
}
/// How many parts have been waited for.
pub fn grow_arrived() -> usize {
    ENV.with(|e| match e.borrow().as_ref() {
        Some(Env::Grow(g)) => g.arrived,
        _ => panic!("no growing file"),
    })
}
unsafe fn grow_read(g: &mut Grow, fd: c_int, mut at: impl FnMut() -> isize) -> Option<isize> {
    match ino_of(fd) {
        Some((_, m)) if m & S_IFMT == S_IFIFO => {}
        _ => return None,
    }
    loop {
        let r = at();
        if r >= 0 || *__errno_location() != EAGAIN {
            return Some(r);
        }
        g.arrived += 1;
        match g.parts.pop_front() {
            Some(p) => {
                let n = syscall(SYS_write, g.end, p.as_ptr(), p.len());
                assert!(n == p.len() as i64, "part does not fit into the pipe");
            }
            None => {
                syscall(SYS_close, g.end);
                g.end = -1;
            }
        }
    }
}
pub fn net_start(net: Net) {
    ENV.with(|e| *e.borrow_mut() = Some(Env::Net(Box::new(net))));
}
pub fn net_end() -> Box<Net> {
    match ENV.with(|e| e.borrow_mut().take()) {
        Some(Env::Net(n)) => n,
        _ => panic!("no network environment"),
    }
}
/// Looks at the network environment between calls of the code under test.
pub fn net<T>(f: impl FnOnce(&mut Net) -> T) -> T {
    ENV.with(|e| match e.borrow_mut().as_mut() {
        Some(Env::Net(n)) => f(n),
        _ => panic!("no network environment"),
    })
}

fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}
/// `None`: let the kernel answer.
fn guarded(f: impl FnOnce(&mut Env) -> Option<isize>) -> Option<isize> {
    let r = ENV.try_with(|cell| {
        let mut env = match cell.try_borrow_mut() {
            Ok(e) => e,
            Err(_) => return None,
        };
        let env = env.as_mut()?;
        let _pause = crate::alloc::pause();
        match catch_unwind(AssertUnwindSafe(|| f(env))) {
            Ok(x) => x,
            Err(_) => {
                let m = crate::explore::last_panic();
                ENGINE.with(|g| {
                    let mut g = g.borrow_mut();
                    if g.is_none() {
                        *g = Some(m)
                    }
                });
                set_errno(ECONNABORTED);
                Some(-1)
            }
        }
    });
    r.unwrap_or(None)
}
fn fail(e: i32) -> Option<isize> {
    set_errno(e);
    Some(-1)
}

unsafe fn ino_of(fd: c_int) -> Option<(u64, u32)> {
    let mut st: stat = std::mem::zeroed();
    if syscall(SYS_fstat, fd, &mut st as *mut stat) != 0 {
        return None;
    }
    Some((st.st_ino, st.st_mode))
}
unsafe fn conn_of(n: &Net, fd: c_int) -> Option<usize> {
    let (ino, mode) = ino_of(fd)?;
    if mode & S_IFMT != S_IFSOCK {
        return None;
    }
    n.conns.iter().rposition(|c| c.ino == ino && !c.closed_by_client)
}

unsafe fn file_read(e: &mut FileEnv, fd: c_int, n: usize, mut at: impl FnMut(usize) -> isize) -> Option<isize> {
    match ino_of(fd) {
        Some((_, m)) if m & S_IFMT == S_IFREG => {}
        _ => return None,
    }
    e.total_calls += 1;
    if e.total_calls > FILE_SPIN {
        return fail(EIO);
    }
    if e.plan.intr_all && !e.pending_intr {
        e.pending_intr = true;
        return fail(EINTR);
    }
    e.pending_intr = false;
    let i = e.calls;
    if e.plan.intr.contains(&i) {
        e.calls += 1;
        return fail(EINTR);
    }
    e.calls += 1;
    let pos = syscall(SYS_lseek, fd, 0, SEEK_CUR) as u64;
    let mut n = n;
    if n == 0 {
        return Some(0);
    }
    if let Some((o, errno)) = e.plan.fail {
        if pos >= o {
            return fail(errno);
        }
        n = n.min((o - pos) as usize);
    }
    if e.plan.cap > 0 {
        n = n.min(e.plan.cap);
    }
    for s in &e.plan.splits {
        if *s > pos {
            n = n.min((*s - pos) as usize);
        }
    }
    let r = at(n);
    if r == 0 {
        e.eofs += 1;
    }
    Some(r)
}

unsafe fn net_recv(n: &mut Net, fd: c_int, buf: *mut u8, len: usize, flags: c_int) -> Option<isize> {
    let c = conn_of(n, fd)?;
    n.calls += 1;
    if n.calls > n.max_calls {
        n.verdict(format!("the client made more than {} calls on its connection", n.max_calls));
        return fail(ECONNABORTED);
    }
    let now_timeout = n.conns[c].rcvtimeo;
    {
        let k = &mut n.conns[c];
        if let Some(t) = now_timeout {
            k.max_timeout = k.max_timeout.max(t);
            k.min_timeout = Some(k.min_timeout.map_or(t, |m| m.min(t)))
        }
        if k.dead {
            return fail(ECONNRESET);
        }
        if k.at_eof || k.read_shut {
            k.eofs += 1;
            return Some(0);
        }
    }
    if n.plan.rintr_all && !n.pending_intr_r {
        n.pending_intr_r = true;
        return fail(EINTR);
    }
    n.pending_intr_r = false;
    let i = n.conns[c].recvs;
    n.conns[c].recvs += 1;
    if n.plan.rintr.contains(&i) {
        return fail(EINTR);
    }
    if len == 0 {
        return Some(0);
    }
    let pos = n.conns[c].received;
    if let Some(i) = n.plan.delays.iter().position(|d| d.0 == c && d.1 == pos) {
        let d = n.plan.delays.remove(i).2;
        n.conns[c].q.push_front(Out::Wait(d));
    }
    let mut silent_cut = false;
    if let Some((cc, off, how)) = n.plan.cut {
        if cc == c && pos >= off {
            match how {
                Cut::Close => {
                    n.conns[c].at_eof = true;
                    n.conns[c].eofs += 1;
                    return Some(0);
                }
                Cut::Reset => {
                    n.conns[c].dead = true;
                    return fail(ECONNRESET);
                }
                Cut::Silent => silent_cut = true,
            }
        }
    }
    let mut waited = Duration::ZERO;
    loop {
        let empty = silent_cut || n.conns[c].q.is_empty();
        if empty && !silent_cut {
            let mut q = std::mem::take(&mut n.conns[c].q);
            n.peer.idle(c, &mut q);
            n.conns[c].q = q;
        }
        if silent_cut || n.conns[c].q.is_empty() {
            return silence(n, c, fd, waited);
        }
        match n.conns[c].q.front_mut().unwrap() {
            Out::Wait(d) => {
                let d = *d;
                let left = now_timeout.map(|t| t.saturating_sub(waited));
                match left {
                    Some(l) if l < d => {
                        // The client gives up first; what was left of the delay stays.
                        n.conns[c].q[0] = Out::Wait(d - l);
                        n.clock += l;
                        n.conns[c].silences += 1;
                        return fail(EAGAIN);
                    }
                    _ => {
                        if nonblocking(fd) {
                            return fail(EAGAIN);
                        }
                        n.clock += d;
                        waited += d;
                        n.conns[c].q.pop_front();
                    }
                }
            }
            Out::Close => {
                n.conns[c].at_eof = true;
                n.conns[c].eofs += 1;
                return Some(0);
            }
            Out::Reset => {
                n.conns[c].dead = true;
                return fail(ECONNRESET);
            }
            Out::Data(d) => {
                if d.is_empty() {
                    n.conns[c].q.pop_front();
                    continue;
                }
                let mut k = len.min(d.len());
                if n.plan.rcap > 0 {
                    k = k.min(n.plan.rcap)
                }
                for s in &n.plan.rsplits {
                    if *s > pos {
                        k = k.min((*s - pos) as usize)
                    }
                }
                for d in &n.plan.delays {
                    if d.0 == c && d.1 > pos {
                        k = k.min((d.1 - pos) as usize)
                    }
                }
                if let Some((cc, off, _)) = n.plan.cut {
                    if cc == c && off > pos {
                        k = k.min((off - pos) as usize)
                    }
                }
                std::ptr::copy_nonoverlapping(d.as_ptr(), buf, k);
                if flags & MSG_PEEK == 0 {
                    if k == d.len() {
                        n.conns[c].q.pop_front();
                    } else if k > 4096 || d.len() < 65536 {
                        d.drain(..k);
                    } else {
                        // Long output read in small pieces: split it to keep draining cheap.
                        let rest = d.split_off(65536.min(d.len() - 1).max(k));
                        d.drain(..k);
                        if d.is_empty() {
                            n.conns[c].q[0] = Out::Data(rest);
                        } else {
                            n.conns[c].q.insert(1, Out::Data(rest));
                        }
                    }
                    n.conns[c].received += k as u64;
                }
                return Some(k as isize);
            }
        }
    }
}
unsafe fn nonblocking(fd: c_int) -> bool {
    syscall(SYS_fcntl, fd, F_GETFL, 0) & O_NONBLOCK as i64 != 0
}
unsafe fn silence(n: &mut Net, c: usize, fd: c_int, waited: Duration) -> Option<isize> {
    if nonblocking(fd) {
        return fail(EAGAIN);
    }
    match n.conns[c].rcvtimeo {
        Some(t) => {
            n.clock += t.saturating_sub(waited);
            n.conns[c].silences += 1;
            if n.conns[c].silences > 10_000 {
                n.verdict("the client keeps waiting for a server that stays silent".into());
                n.conns[c].dead = true;
                return fail(ECONNRESET);
            }
            fail(EAGAIN)
        }
        None => {
            n.conns[c].unlimited_waits += 1;
            n.verdict("the client waits without a timeout for a server that stays silent".into());
            n.conns[c].dead = true;
            fail(ECONNRESET)
        }
    }
}
unsafe fn net_send(n: &mut Net, fd: c_int, buf: *const u8, len: usize) -> Option<isize> {
    let c = conn_of(n, fd)?;
    n.calls += 1;
    if n.calls > n.max_calls {
        n.verdict(format!("the client made more than {} calls on its connection", n.max_calls));
        return fail(ECONNABORTED);
    }
    if n.conns[c].dead {
        return fail(ECONNRESET);
    }
    if n.conns[c].at_eof {
        return fail(EPIPE);
    }
    if n.plan.wintr_all && !n.pending_intr_w {
        n.pending_intr_w = true;
        return fail(EINTR);
    }
    n.pending_intr_w = false;
    let i = n.conns[c].sends;
    n.conns[c].sends += 1;
    if n.plan.wintr.contains(&i) {
        return fail(EINTR);
    }
    if n.conns[c].silences > 0 {
        n.conns[c].writes_after_silence += 1;
    }
    let pos = n.conns[c].sent.len() as u64;
    let mut k = len;
    if let Some((cc, off)) = n.plan.wcut {
        if cc == c {
            if pos >= off {
                n.conns[c].dead = true;
                return fail(ECONNRESET);
            }
            k = k.min((off - pos) as usize);
        }
    }
    if n.plan.wcap > 0 {
        k = k.min(n.plan.wcap)
    }
    for s in &n.plan.wsplits {
        if *s > pos {
            k = k.min((*s - pos) as usize)
        }
    }
    let bytes = std::slice::from_raw_parts(buf, k);
    n.conns[c].sent.extend_from_slice(bytes);
    let mut q = std::mem::take(&mut n.conns[c].q);
    n.peer.input(c, bytes, &mut q);
    n.conns[c].q = q;
    Some(k as isize)
}

unsafe fn iov_first(iov: *const iovec, cnt: c_int) -> (*mut u8, usize) {
    for i in 0..cnt as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            return (v.iov_base as *mut u8, v.iov_len);
        }
    }
    (std::ptr::NonNull::dangling().as_ptr(), 0)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    crate::sched::point();
    match guarded(|e| match e {
        Env::File(f) => file_read(f, fd, n, |k| syscall(SYS_read, fd, buf, k) as isize),
        Env::Grow(g) => grow_read(g, fd, || syscall(SYS_read, fd, buf, n) as isize),
        Env::Net(x) => net_recv(x, fd, buf as *mut u8, n, 0),
    }) {
        Some(r) => r,
        None => syscall(SYS_read, fd, buf, n) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    crate::sched::point();
    let (p, l) = iov_first(iov, cnt);
    match guarded(|e| match e {
        Env::File(f) => file_read(f, fd, l, |k| syscall(SYS_read, fd, p, k) as isize),
        Env::Grow(g) => grow_read(g, fd, || syscall(SYS_readv, fd, iov, cnt) as isize),
        Env::Net(x) => net_recv(x, fd, p, l, 0),
    }) {
        Some(r) => r,
        None => syscall(SYS_readv, fd, iov, cnt) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, n: size_t, flags: c_int) -> ssize_t {
    crate::sched::point();
    match guarded(|e| match e {
        Env::Net(x) => net_recv(x, fd, buf as *mut u8, n, flags),
        _ => None,
    }) {
        Some(r) => r,
        None => syscall(SYS_recvfrom, fd, buf, n, flags, 0, 0) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, n: size_t, flags: c_int) -> ssize_t {
    crate::sched::point();
    match guarded(|e| match e {
        Env::Net(x) => net_send(x, fd, buf as *const u8, n),
        _ => None,
    }) {
        Some(r) => r,
        None => syscall(SYS_sendto, fd, buf, n, flags, 0, 0) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    crate::sched::point();
    match guarded(|e| match e {
        Env::Net(x) => net_send(x, fd, buf as *const u8, n),
        _ => None,
    }) {
        Some(r) => r,
        None => syscall(SYS_write, fd, buf, n) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    crate::sched::point();
    match guarded(|e| match e {
        Env::Net(x) => {
            let (p, l) = iov_first(iov, cnt);
            net_send(x, fd, p, l)
        }
        _ => None,
    }) {
        Some(r) => r,
        None => syscall(SYS_writev, fd, iov, cnt) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: c_int, m: *const msghdr, flags: c_int) -> ssize_t {
    crate::sched::point();
    match guarded(|e| match e {
        Env::Net(x) => {
            let (p, l) = iov_first((*m).msg_iov, (*m).msg_iovlen as c_int);
            net_send(x, fd, p, l)
        }
        _ => None,
    }) {
        Some(r) => r,
        None => syscall(SYS_sendmsg, fd, m, flags) as ssize_t,
    }
}
unsafe fn address(a: *const sockaddr, len: socklen_t) -> Option<std::net::SocketAddr> {
    match (*a).sa_family as c_int {
        AF_INET if len as usize >= std::mem::size_of::<sockaddr_in>() => {
            let a = &*(a as *const sockaddr_in);
            Some((std::net::Ipv4Addr::from(u32::from_be(a.sin_addr.s_addr)), u16::from_be(a.sin_port)).into())
        }
        AF_INET6 if len as usize >= std::mem::size_of::<sockaddr_in6>() => {
            let a = &*(a as *const sockaddr_in6);
            Some((std::net::Ipv6Addr::from(a.sin6_addr.s6_addr), u16::from_be(a.sin6_port)).into())
        }
        _ => None,
    }
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, addr: *const sockaddr, len: socklen_t) -> c_int {
    crate::sched::point();
    match guarded(|e| match e {
        Env::Net(x) => {
            let (ino, _) = ino_of(fd)?;
            x.calls += 1;
            if x.refuse {
                return fail(ECONNREFUSED);
            }
            let i = x.conns.len();
            let mut c = Conn { ino, addr: address(addr, len), ..Default::default() };
            // A timeout set before connecting counts as well.
            let mut tv: timeval = std::mem::zeroed();
            let mut l = std::mem::size_of::<timeval>() as socklen_t;
            if syscall(SYS_getsockopt, fd, SOL_SOCKET, SO_RCVTIMEO, &mut tv, &mut l) == 0 && (tv.tv_sec != 0 || tv.tv_usec != 0) {
                c.rcvtimeo = Some(Duration::new(tv.tv_sec as u64, tv.tv_usec as u32 * 1000));
            }
            for o in x.conns.iter_mut() {
                if o.ino == ino {
                    o.closed_by_client = true
                }
            }
            let mut q = VecDeque::new();
            x.peer.open(i, &mut q);
            c.q = q;
            x.conns.push(c);
            Some(0)
        }
        _ => None,
    }) {
        Some(r) => r as c_int,
        None => syscall(SYS_connect, fd, addr, len) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, level: c_int, name: c_int, val: *const c_void, len: socklen_t) -> c_int {
    let r = syscall(SYS_setsockopt, fd, level, name, val, len) as c_int;
    if r == 0 && level == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO) && len as usize >= std::mem::size_of::<timeval>() {
        guarded(|e| match e {
            Env::Net(x) => {
                let tv = &*(val as *const timeval);
                let d = Duration::new(tv.tv_sec as u64, tv.tv_usec as u32 * 1000);
                let d = if d.is_zero() { None } else { Some(d) };
                let c = conn_of(x, fd)?;
                if name == SO_RCVTIMEO {
                    x.conns[c].rcvtimeo = d
                } else {
                    x.conns[c].sndtimeo = d
                }
                None
            }
            _ => None,
        });
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    match guarded(|e| match e {
        Env::Net(x) => {
            let c = conn_of(x, fd)?;
            if how != SHUT_WR {
                x.conns[c].read_shut = true
            }
            Some(0)
        }
        _ => None,
    }) {
        Some(r) => r as c_int,
        None => syscall(SYS_shutdown, fd, how) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    guarded(|e| match e {
        Env::Net(x) => {
            if let Some(c) = conn_of(x, fd) {
                // A duplicate may remain open; that is rare enough to be told apart by its next use only.
                x.conns[c].closed_by_client = dup_count(x.conns[c].ino) <= 1;
            }
            None
        }
        _ => None,
    });
    syscall(SYS_close, fd) as c_int
}
/// How many of this process's descriptors refer to the socket.
unsafe fn dup_count(ino: u64) -> usize {
    // Descriptors are few while a network environment is active; look at the low ones only.
    (0..64).filter(|fd| ino_of(*fd).map(|x| x.0 == ino && x.1 & S_IFMT == S_IFSOCK).unwrap_or(false)).count()
}
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut pollfd, n: nfds_t, timeout: c_int) -> c_int {
    match guarded(|e| match e {
        Env::Net(x) => {
            if n != 1 {
                return None;
            }
            let f = &mut *fds;
            let c = conn_of(x, f.fd)?;
            f.revents = 0;
            if f.events & POLLOUT != 0 {
                f.revents |= POLLOUT
            }
            loop {
                if x.conns[c].q.is_empty() {
                    let mut q = std::mem::take(&mut x.conns[c].q);
                    x.peer.idle(c, &mut q);
                    x.conns[c].q = q;
                }
                match x.conns[c].q.front() {
                    Some(Out::Wait(d)) => {
                        let d = *d;
                        let t = Duration::from_millis(timeout.max(0) as u64);
                        if timeout >= 0 && t < d {
                            x.conns[c].q[0] = Out::Wait(d - t);
                            x.clock += t;
                            return Some((f.revents != 0) as isize);
                        }
                        x.clock += d;
                        x.conns[c].q.pop_front();
                    }
                    Some(_) => {
                        if f.events & POLLIN != 0 {
                            f.revents |= POLLIN
                        }
                        return Some((f.revents != 0) as isize);
                    }
                    None => {
                        if f.revents != 0 {
                            return Some(1);
                        }
                        if timeout < 0 {
                            x.conns[c].unlimited_waits += 1;
                            x.verdict("the client waits without a timeout for a server that stays silent".into());
                            x.conns[c].dead = true;
                            f.revents = POLLERR;
                            return Some(1);
                        }
                        let t = Duration::from_millis(timeout as u64);
                        x.conns[c].max_timeout = x.conns[c].max_timeout.max(t);
                        x.clock += t;
                        return Some(0);
                    }
                }
            }
        }
        _ => None,
    }) {
        Some(r) => r as c_int,
        None => syscall(SYS_poll, fds, n, timeout) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, addr: *mut sockaddr, len: *mut socklen_t) -> c_int {
    match guarded(|e| match e {
        Env::Net(x) => {
            conn_of(x, fd)?;
            let a = &mut *(addr as *mut sockaddr_in);
            *a = std::mem::zeroed();
            a.sin_family = AF_INET as u16;
            a.sin_port = 3306u16.to_be();
            a.sin_addr.s_addr = 0x7f000001u32.to_be();
            *len = std::mem::size_of::<sockaddr_in>() as socklen_t;
            Some(0)
        }
        _ => None,
    }) {
        Some(r) => r as c_int,
        None => syscall(SYS_getpeername, fd, addr, len) as c_int,
    }
}
