//! A small model of the operating system, linked over libc.
//!
//! The code under test is the unmodified code of /repo and of the Rust
//! standard library; every libc function those reach is defined here, so the
//! engine executes them as ordinary code and a native run of the same
//! executable touches nothing real.
#![allow(non_camel_case_types)]
use crate::sym;
use libc::{c_char, c_int, c_void, size_t, ssize_t};

pub const DIR: u8 = 1;
pub const SOCK: u8 = 2;
pub const FILE: u8 = 3;
pub const TTY: u8 = 4;
pub const FIFO: u8 = 5;
pub const BLK: u8 = 6;
pub const LINK: u8 = 7; // symbolic link; data is its target

/// Calls counted by the fault schedule.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Op { None, Open, Read, Write, Stat, Unlink, Socket, Bind, Listen, Chown, Chmod, Select, Accept, Recv, Send, Shutdown, Sigaction, Close, Fcntl, Rename }

#[derive(Clone, Copy)]
pub struct Node { pub alive: bool, pub kind: u8, pub path: &'static [u8], pub uid: u32, pub gid: u32, pub mode: u32, pub data: &'static [u8], pub stock: bool }
#[derive(Clone, Copy)]
pub struct Fd { pub kind: u8, pub node: usize, pub pos: usize, pub no_read: bool, pub no_write: bool }
pub const F_CLOSED: u8 = 0;
pub const F_FILE: u8 = 1;
pub const F_SOCK: u8 = 2; // fresh socket
pub const F_BOUND: u8 = 3;
pub const F_LISTEN: u8 = 4;
pub const F_STREAM: u8 = 5;
pub const F_STD: u8 = 6;

pub const NN: usize = 16;
pub const NF: usize = 16;
pub const CAP: usize = 2 << 20;

pub struct Out { pub buf: Vec<u8>, pub n: usize }
impl Out {
    pub const fn new() -> Self { Out { buf: Vec::new(), n: 0 } }
    pub fn put(&mut self, b: &[u8]) { if self.n + b.len() > CAP { sym::check(false, nm!("endless output")); sym::stop() } self.buf.truncate(self.n); self.buf.extend_from_slice(b); self.n += b.len(); }
    pub fn get(&self) -> &[u8] { &self.buf[..self.n] }
    /// Contents equal `b` (one condition, no branching).
    pub fn is(&self, b: &[u8]) -> bool { same(self.get(), b) }
    pub fn clear(&mut self) { self.n = 0 }
}
/// Equality as a single condition.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && unsafe { bcmp(a.as_ptr(), b.as_ptr(), a.len()) } == 0
}
extern "C" { fn bcmp(a: *const u8, b: *const u8, n: usize) -> c_int; }

pub struct World {
    pub nodes: [Node; NN], pub nn: usize,
    // descriptors from 3 up; `crowd` more were open already when sudo started
    pub fds: [Fd; NF], pub crowd: usize,
    pub errno: c_int,
    pub umask: u32, pub euid: u32, pub egid: u32, pub uid: u32, pub gid: u32,
    // faults: the `fault_at`th counted call fails with `fault_errno`
    pub count: u32, pub fault_at: u8, pub fault_errno: c_int, pub faulted: Op,
    pub fault2_at: u8, pub fault2_errno: c_int, pub faulted2: Op,
    // Ctrl-C during the `sigint_at`th call that can block
    pub blocking: u32, pub sigint_at: u8, pub sigint_hit: Op, pub hung: bool, pub killed: bool,
    pub sa: libc::sigaction, pub sa_calls: u32,
    // the pair's side
    pub peer_connects: bool,
    pub sent: Out, pub reply: [u8; 64], pub nreply: usize, pub rpos: usize, pub chunk: usize, pub peer_gone: bool,
    pub send_err: c_int, pub send_fail_at: u32, pub sends: u32,
    pub timeouts: u32, pub rcv_limit: bool, pub clock: u32, pub blocked: bool, pub shutdowns: u32, pub shut: bool, pub shut_rd: bool, pub shut_wr: bool, pub accepts: u32, pub binds: u32, pub selects: u32, pub stream_closed: u32,
    pub stdio: Out, pub tty: Out, pub tty_chunk: usize, pub read_chunk: usize, pub printed: Out, pub perr: u32, pub pinfo: u32, pub printf_fail: bool, pub printf_fail_at: u32, pub printf_failed: bool, pub bad_fmt: bool, pub last_level: c_int,
    // access to the socket: who may ever connect
    pub watch: bool, pub allow_uid: u32, pub allow_gid: u32, pub allow_by_gid: bool, pub wide: bool, pub exposed: bool,
    pub access_ready: bool,
    pub bad_unlink: bool, pub mkdirs: u32,
    /// leave through `early` as soon as a socket is asked for
    pub early: Option<fn()>,
    /// called whenever the plugin starts to wait for the pair
    pub ready: Option<fn()>,

    pub pair_sock: usize,
}

pub const NODE0: Node = Node { alive: false, kind: 0, path: b"", uid: 0, gid: 0, mode: 0, data: b"", stock: false };
const FD0: Fd = Fd { kind: F_CLOSED, node: 0, pos: 0, no_read: false, no_write: false };

static mut W: World = World {
    nodes: [NODE0; NN], nn: 0, fds: [FD0; NF], crowd: 0, errno: 0, umask: 0o022, euid: 0, egid: 0, uid: 7, gid: 3,
    count: 0, fault_at: 0, fault_errno: 0, faulted: Op::None, fault2_at: 0, fault2_errno: 0, faulted2: Op::None, blocking: 0, sigint_at: 0, sigint_hit: Op::None, hung: false, killed: false,
    sa: unsafe { std::mem::zeroed() }, sa_calls: 0, peer_connects: true,
    sent: Out::new(), reply: [0; 64], nreply: 0, rpos: 0, chunk: 0, peer_gone: false, send_err: 0, send_fail_at: 0, sends: 0,
    timeouts: 0, rcv_limit: false, clock: 0, blocked: false, shutdowns: 0, shut: false, shut_rd: false, shut_wr: false, accepts: 0, binds: 0, selects: 0, stream_closed: 0,
    stdio: Out::new(), tty: Out::new(), tty_chunk: 0, read_chunk: 0, printed: Out::new(), perr: 0, pinfo: 0, printf_fail: false, printf_fail_at: 0, printf_failed: false, bad_fmt: false, last_level: 0,
    watch: false, allow_uid: 0, allow_gid: 0, allow_by_gid: false, wide: false, exposed: false, access_ready: false, bad_unlink: false, mkdirs: 0,
    early: None, ready: None, pair_sock: usize::MAX,
};
pub fn w() -> &'static mut World { unsafe { &mut *core::ptr::addr_of_mut!(W) } }

impl World {
    /// Forget what the last session did, so that the next one can be judged by itself.
    pub fn again(&mut self) {
        self.rpos = 0; self.shut = false; self.shut_rd = false; self.shut_wr = false; self.stream_closed = 0; self.accepts = 0; self.binds = 0; self.selects = 0; self.perr = 0; self.pinfo = 0; self.sends = 0;
        self.sent.clear(); self.printed.clear(); self.tty.clear(); self.stdio.clear();
        // circumstances that were there before stay; a socket's node that is gone may be used again
        while self.nn > 1 && !self.nodes[self.nn - 1].alive { self.nn -= 1; }
    }
    pub fn init(&mut self) { for i in 0..3 { self.fds[i].kind = F_STD; } }
    pub fn add(&mut self, kind: u8, path: &'static [u8], uid: u32, gid: u32, mode: u32, data: &'static [u8]) -> usize {
        if self.nn >= NN { sym::limit(nm!("file table of the model")) }
        self.nodes[self.nn] = Node { alive: true, kind, path, uid, gid, mode, data, stock: true };
        self.nn += 1; self.nn - 1
    }
    fn find(&self, p: &[u8]) -> Option<usize> { let mut i = 0; while i < self.nn { if self.nodes[i].alive && same(self.nodes[i].path, p) { return Some(i); } i += 1; } None }
    /// What a path names, following symbolic links.
    fn follow(&self, p: &[u8]) -> Option<usize> { let mut r = self.find(p); for _ in 0..8 { match r { Some(i) if self.nodes[i].kind == LINK => r = self.find(self.nodes[i].data), _ => return r } } None }
    fn newfd(&mut self, kind: u8, node: usize) -> c_int { for i in 3..NF { if self.fds[i].kind == F_CLOSED { self.fds[i] = Fd { kind, node, ..FD0 }; return (i + self.crowd) as c_int; } } sym::limit(nm!("fd table of the model")) }
    fn at(&self, fd: c_int) -> usize { if fd < 3 { fd as usize } else if (fd as usize) < 3 + self.crowd { NF } else { fd as usize - self.crowd } }
    fn fail(&mut self, e: c_int) -> c_int { self.errno = e; -1 }
    /// Count a call; true if the schedule makes it fail.
    fn tick(&mut self, op: Op) -> bool {
        self.count += 1;
        if self.fault_at != 0 && self.faulted == Op::None && self.fault_at as u32 == self.count { self.faulted = op; self.errno = self.fault_errno; return true; }
        if self.fault2_at != 0 && self.faulted2 == Op::None && self.fault2_at as u32 == self.count { self.faulted2 = op; self.errno = self.fault2_errno; return true; }
        false
    }
    /// A call that can block: does Ctrl-C arrive while it waits?
    fn sigint(&mut self, op: Op) -> bool {
        self.blocking += 1;
        if self.blocked { if self.sigint_at as u32 == self.blocking && self.sigint_at != 0 { self.hung = true; } return false; }
        let hit = self.sigint_at != 0 && self.sigint_hit == Op::None && self.sigint_at as u32 == self.blocking;
        if hit {
            self.sigint_hit = op;
            // harnesses start with a handler of sudo's in place
            if self.sa.sa_sigaction == libc::SIG_IGN { self.hung = true; return false; }
            if self.sa.sa_sigaction == libc::SIG_DFL { self.killed = true; }
        }
        hit
    }
    pub fn live_socks(&self) -> usize { let mut n = 0; for i in 0..self.nn { if self.nodes[i].alive && self.nodes[i].kind == SOCK { n += 1; } } n }
    pub fn open_fds(&self) -> usize { let mut n = 0; for i in 3..NF { if self.fds[i].kind != F_CLOSED { n += 1; } } n }
    /// Can anyone but the expected party connect right now?  (root can always.)
    fn observe(&mut self) {
        if !self.watch { return; }
        let i = self.pair_sock;
        if i == usize::MAX || !self.nodes[i].alive { return; }
        let n = self.nodes[i];
        let w = self.listening();
        let u_ok = n.mode & 0o200 == 0 || n.uid == self.euid || (!self.allow_by_gid && n.uid == self.allow_uid);
        let g_ok = n.mode & 0o020 == 0 || (self.allow_by_gid && n.gid == self.allow_gid);
        let o_ok = n.mode & 0o002 == 0;
        // who may connect matters from the moment the socket exists: a bound
        // address with a backlog accepts connections made before `accept`
        let _ = w;
        self.wide = self.wide | !(u_ok & g_ok & o_ok);
    }
    fn listening(&self) -> bool { for i in 3..NF { if self.fds[i].kind == F_LISTEN { return true; } } false }
    /// The plugin waits for the pair to connect.
    fn waiting(&mut self) {
        self.access_ready = true;
        if let Some(f) = self.ready { f() }
        if !self.peer_connects { sym::stop() }
    }
    fn early_out(&mut self) { if let Some(f) = self.early { f(); sym::stop() } }
}

pub unsafe fn cbytes(p: *const c_char) -> &'static [u8] { std::slice::from_raw_parts(p as *const u8, strlen(p)) }
extern "C" { fn strlen(p: *const c_char) -> usize; }

unsafe fn raw_open(path: *const c_char, flags: c_int) -> c_int {
    let w = w();
    if w.tick(Op::Open) { return -1; }
    let p = cbytes(path);
    match w.follow(p) {
        Some(i) => { let k = w.nodes[i].kind; if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 { return w.fail(libc::EEXIST); } if k == SOCK { return w.fail(libc::ENXIO); } if k == DIR && flags & 3 != 0 { return w.fail(libc::EISDIR); } let fd = w.newfd(F_FILE, i); w.fds[w.at(fd)].no_read = flags & 3 == libc::O_WRONLY; w.fds[w.at(fd)].no_write = flags & 3 == libc::O_RDONLY; fd }
        None if flags & libc::O_CREAT != 0 => { let path: &'static [u8] = Vec::leak(p.to_vec()); let (u, g) = (w.euid, w.egid); let i = w.add(FILE, path, u, g, 0o600, b""); w.nodes[i].stock = false; w.mkdirs += 1; let fd = w.newfd(F_FILE, i); w.fds[w.at(fd)].no_read = flags & 3 == libc::O_WRONLY; w.fds[w.at(fd)].no_write = flags & 3 == libc::O_RDONLY; fd }
        None => w.fail(libc::ENOENT),
    }
}
#[no_mangle] pub unsafe extern "C" fn openat(_d: c_int, path: *const c_char, flags: c_int, _mode: c_int) -> c_int { raw_open(path, flags) }
#[no_mangle] pub unsafe extern "C" fn openat64(_d: c_int, path: *const c_char, flags: c_int, _mode: c_int) -> c_int { raw_open(path, flags) }
#[no_mangle] pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, _mode: c_int) -> c_int { raw_open(path, flags) }
#[no_mangle] pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, _mode: c_int) -> c_int { raw_open(path, flags) }
#[no_mangle] pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let w = w();
    if w.at(fd) >= NF || w.fds[w.at(fd)].kind == F_CLOSED { return w.fail(libc::EBADF); }
    let k = w.fds[w.at(fd)].kind;
    w.fds[w.at(fd)].kind = F_CLOSED;
    // the connection ends with its last descriptor
    if k == F_STREAM { let mut more = false; for i in 3..NF { if w.fds[i].kind == F_STREAM { more = true; } } if !more { w.stream_closed += 1; } }
    0
}
unsafe fn fdx(fd: c_int) -> Option<Fd> { let i = w().at(fd); if i >= NF { return None; } let f = w().fds[i]; if f.kind == F_CLOSED { None } else { Some(f) } }
unsafe fn do_recv(buf: *mut u8, n: usize, peek: bool) -> ssize_t {
    let w = w();
    if w.tick(Op::Recv) { return -1; }
    if w.sigint(Op::Recv) {
        if w.sa.sa_flags & libc::SA_RESTART != 0 { w.hung = true; }   // the kernel restarts the call: Ctrl-C does nothing
        w.errno = libc::EINTR; return -1;
    }
    if w.shut_rd { return 0; }
    if timed_out(w.rcv_limit) { w.errno = libc::EAGAIN; return -1; }
    let k = (w.nreply - w.rpos).min(n);
    for i in 0..k { *buf.add(i) = w.reply[w.rpos + i]; }
    if !peek { w.rpos += k; } k as ssize_t
}
unsafe fn do_send(buf: *const u8, n: usize) -> ssize_t {
    let w = w();
    if w.tick(Op::Send) { return -1; }
    if w.sigint(Op::Send) {
        if w.sa.sa_flags & libc::SA_RESTART != 0 { w.hung = true; }
        w.errno = libc::EINTR; return -1;
    }
    w.sends += 1;
    if w.shut_wr || w.peer_gone { w.errno = libc::EPIPE; return -1; }
    if w.send_fail_at != 0 && w.sends >= w.send_fail_at { if w.send_err == 0 { return 0; } w.errno = w.send_err; return -1; }
    let k = if w.chunk != 0 { n.min(w.chunk) } else { n };
    w.sent.put(std::slice::from_raw_parts(buf, k));
    k as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn read(fd: c_int, buf: *mut u8, n: size_t) -> ssize_t {
    let f = match fdx(fd) { Some(f) => f, None => return w().fail(libc::EBADF) as ssize_t };
    match f.kind {
        F_STREAM => do_recv(buf, n, false),
        F_FILE => { let w = w(); if f.no_read { return w.fail(libc::EBADF) as ssize_t; } if w.tick(Op::Read) { return -1; }
            let nd = w.nodes[f.node]; if nd.kind == DIR { return w.fail(libc::EISDIR) as ssize_t; }
            let d = nd.data; let mut k = n.min(d.len() - f.pos.min(d.len())); if w.read_chunk != 0 { k = k.min(w.read_chunk); } std::ptr::copy_nonoverlapping(d.as_ptr().add(f.pos.min(d.len())), buf, k); w.fds[w.at(fd)].pos += k; k as ssize_t }
        _ => 0,
    }
}
#[no_mangle] pub unsafe extern "C" fn write(fd: c_int, buf: *const u8, n: size_t) -> ssize_t {
    let f = match fdx(fd) { Some(f) => f, None => return w().fail(libc::EBADF) as ssize_t };
    match f.kind {
        F_STREAM => do_send(buf, n),
        F_STD => { w().stdio.put(std::slice::from_raw_parts(buf, n)); n as ssize_t }
        F_FILE => { let w = w(); if f.no_write { return w.fail(libc::EBADF) as ssize_t; } if w.tick(Op::Write) { return -1; } let k = if w.tty_chunk != 0 { n.min(w.tty_chunk) } else { n }; w.tty.put(std::slice::from_raw_parts(buf, k)); k as ssize_t }
        _ => w().fail(libc::EBADF) as ssize_t,
    }
}
#[no_mangle] pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    let mut t = 0; for i in 0..n as usize { let v = &*iov.add(i); let r = write(fd, v.iov_base as *const u8, v.iov_len); if r < 0 { return if t > 0 { t } else { r }; } t += r; if (r as usize) < v.iov_len { break; } } t
}
#[no_mangle] pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    for i in 0..n as usize { let v = &*iov.add(i); if v.iov_len > 0 { return read(fd, v.iov_base as *mut u8, v.iov_len); } } 0
}
#[no_mangle] pub unsafe extern "C" fn recv(fd: c_int, buf: *mut u8, n: size_t, fl: c_int) -> ssize_t { match fdx(fd) { Some(f) if f.kind == F_STREAM => do_recv(buf, n, fl & libc::MSG_PEEK != 0), _ => w().fail(libc::ENOTSOCK) as ssize_t } }
#[no_mangle] pub unsafe extern "C" fn recvfrom(fd: c_int, buf: *mut u8, n: size_t, fl: c_int, _a: *mut c_void, _l: *mut u32) -> ssize_t { recv(fd, buf, n, fl) }
#[no_mangle] pub unsafe extern "C" fn send(fd: c_int, buf: *const u8, n: size_t, _fl: c_int) -> ssize_t { match fdx(fd) { Some(f) if f.kind == F_STREAM => do_send(buf, n), _ => w().fail(libc::ENOTSOCK) as ssize_t } }
#[no_mangle] pub unsafe extern "C" fn sendto(fd: c_int, buf: *const u8, n: size_t, fl: c_int, _a: *const c_void, _l: u32) -> ssize_t { send(fd, buf, n, fl) }
#[no_mangle] pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, wh: c_int) -> i64 {
    match fdx(fd) { Some(f) if f.kind == F_FILE => { let p = match wh { 0 => off, 1 => f.pos as i64 + off, _ => w().nodes[f.node].data.len() as i64 + off }; w().fds[w().at(fd)].pos = p as usize; p } _ => w().fail(libc::ESPIPE) as i64 }
}
unsafe fn fill(i: usize, st: *mut libc::stat) {
    let n = w().nodes[i];
    let mut s: libc::stat = std::mem::zeroed();
    s.st_mode = n.mode | match n.kind { DIR => libc::S_IFDIR, SOCK => libc::S_IFSOCK, TTY => libc::S_IFCHR, FIFO => libc::S_IFIFO, BLK => libc::S_IFBLK, LINK => libc::S_IFLNK, _ => libc::S_IFREG };
    s.st_uid = n.uid; s.st_gid = n.gid; s.st_nlink = 1; s.st_ino = i as u64 + 1; s.st_size = n.data.len() as i64;
    *st = s;
}
unsafe fn do_stat(p: *const c_char, st: *mut libc::stat) -> c_int {
    let w = w();
    if w.tick(Op::Stat) { return -1; }
    match w.follow(cbytes(p)) { Some(i) => { fill(i, st); 0 } None => w.fail(libc::ENOENT) }
}
unsafe fn do_lstat(p: *const c_char, st: *mut libc::stat) -> c_int {
    let w = w();
    if w.tick(Op::Stat) { return -1; }
    match w.find(cbytes(p)) { Some(i) => { fill(i, st); 0 } None => w.fail(libc::ENOENT) }
}
#[no_mangle] pub unsafe extern "C" fn stat(p: *const c_char, st: *mut libc::stat) -> c_int { do_stat(p, st) }
#[no_mangle] pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat) -> c_int { do_stat(p, st) }
#[no_mangle] pub unsafe extern "C" fn lstat(p: *const c_char, st: *mut libc::stat) -> c_int { do_lstat(p, st) }
#[no_mangle] pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat) -> c_int { do_lstat(p, st) }
unsafe fn do_fstat(fd: c_int, st: *mut libc::stat) -> c_int { match fdx(fd) { Some(f) if f.kind == F_FILE => { fill(f.node, st); 0 } Some(_) => { *st = std::mem::zeroed(); (*st).st_mode = libc::S_IFSOCK; 0 } None => w().fail(libc::EBADF) } }
#[no_mangle] pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat) -> c_int { do_fstat(fd, st) }
#[no_mangle] pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat) -> c_int { do_fstat(fd, st) }
#[no_mangle] pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, st: *mut libc::stat, f: c_int) -> c_int { if f & libc::AT_EMPTY_PATH != 0 && *p == 0 { return do_fstat(d, st); } if f & libc::AT_SYMLINK_NOFOLLOW != 0 { do_lstat(p, st) } else { do_stat(p, st) } }
#[no_mangle] pub unsafe extern "C" fn fstatat(d: c_int, p: *const c_char, st: *mut libc::stat, f: c_int) -> c_int { if f & libc::AT_EMPTY_PATH != 0 && *p == 0 { return do_fstat(d, st); } if f & libc::AT_SYMLINK_NOFOLLOW != 0 { do_lstat(p, st) } else { do_stat(p, st) } }
/// An old kernel: std then falls back to stat64.
#[no_mangle] pub unsafe extern "C" fn statx(_d: c_int, _p: *const c_char, _f: c_int, _m: u32, _b: *mut c_void) -> c_int { w().fail(libc::ENOSYS) }
#[no_mangle] pub unsafe extern "C" fn access(p: *const c_char, _m: c_int) -> c_int { match w().follow(cbytes(p)) { Some(_) => 0, None => w().fail(libc::ENOENT) } }
#[no_mangle] pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    let w = w();
    if w.tick(Op::Unlink) { return -1; }
    match w.find(cbytes(p)) {
        Some(i) => { if w.nodes[i].kind == DIR { return w.fail(libc::EISDIR); } if w.nodes[i].kind != SOCK { w.bad_unlink = true; } w.nodes[i].alive = false; 0 }
        None => w.fail(libc::ENOENT),
    }
}
#[no_mangle] pub unsafe extern "C" fn unlinkat(_d: c_int, p: *const c_char, f: c_int) -> c_int { if f & libc::AT_REMOVEDIR != 0 { rmdir(p) } else { unlink(p) } }
#[no_mangle] pub unsafe extern "C" fn remove(p: *const c_char) -> c_int { match w().find(cbytes(p)) { Some(i) if w().nodes[i].kind == DIR => rmdir(p), _ => unlink(p) } }
#[no_mangle] pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let w = w();
    if w.tick(Op::Rename) { return -1; }
    let i = match w.find(cbytes(a)) { Some(i) => i, None => return w.fail(libc::ENOENT) };
    if let Some(j) = w.find(cbytes(b)) { if w.nodes[j].kind == DIR { return w.fail(libc::EISDIR); } if j == i { return 0; } if w.nodes[j].kind != SOCK { w.bad_unlink = true; } w.nodes[j].alive = false; }
    w.nodes[i].path = Vec::leak(cbytes(b).to_vec());
    w.observe(); 0
}
#[no_mangle] pub unsafe extern "C" fn link(_a: *const c_char, _b: *const c_char) -> c_int { sym::limit(nm!("link is outside the model")) }
#[no_mangle] pub unsafe extern "C" fn linkat(_d: c_int, _a: *const c_char, _e: c_int, _b: *const c_char, _f: c_int) -> c_int { sym::limit(nm!("link is outside the model")) }
#[no_mangle] pub unsafe extern "C" fn symlink(_a: *const c_char, _b: *const c_char) -> c_int { sym::limit(nm!("symlink is outside the model")) }
#[no_mangle] pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    let w = w();
    if w.tick(Op::Unlink) { return -1; }
    match w.find(cbytes(p)) { Some(i) if w.nodes[i].kind == DIR => { w.bad_unlink = true; w.nodes[i].alive = false; 0 } Some(_) => w.fail(libc::ENOTDIR), None => w.fail(libc::ENOENT) }
}
#[no_mangle] pub unsafe extern "C" fn mkdir(p: *const c_char, m: u32) -> c_int {
    let w = w();
    if w.tick(Op::Open) { return -1; }
    if w.find(cbytes(p)).is_some() { return w.fail(libc::EEXIST); }
    let path: &'static [u8] = Vec::leak(cbytes(p).to_vec());
    let (u, g, m) = (w.euid, w.egid, m & !w.umask);
    let i = w.add(DIR, path, u, g, m, b""); w.nodes[i].stock = false; w.mkdirs += 1; 0
}
#[no_mangle] pub unsafe extern "C" fn socket(_d: c_int, _t: c_int, _p: c_int) -> c_int { let w = w(); w.early_out(); if w.tick(Op::Socket) { return -1; } w.newfd(F_SOCK, 0) }
#[no_mangle] pub unsafe extern "C" fn bind(fd: c_int, a: *const libc::sockaddr_un, _l: u32) -> c_int {
    let w = w();
    if w.tick(Op::Bind) { return -1; }
    let p = cbytes((*a).sun_path.as_ptr());
    if w.find(p).is_some() { return w.fail(libc::EADDRINUSE); }
    let mut k = p.len(); while k > 0 && p[k - 1] != b'/' { k -= 1; }
    match w.follow(if k > 1 { &p[..k - 1] } else { &p[..k] }) { None => return w.fail(libc::ENOENT), Some(i) if w.nodes[i].kind != DIR => return w.fail(libc::ENOTDIR), _ => {} }
    let path: &'static [u8] = Vec::leak(p.to_vec());
    let (u, g, m) = (w.euid, w.egid, 0o777 & !w.umask);
    let i = w.add(SOCK, path, u, g, m, b"");
    w.nodes[i].stock = false;
    w.pair_sock = i; w.binds += 1;
    w.fds[w.at(fd)] = Fd { kind: F_BOUND, node: i, ..FD0 };
    w.observe();
    0
}
#[no_mangle] pub unsafe extern "C" fn listen(fd: c_int, _n: c_int) -> c_int { let w = w(); if w.tick(Op::Listen) { return -1; } w.fds[w.at(fd)].kind = F_LISTEN; w.observe(); 0 }
unsafe fn do_chown(i: usize, uid: u32, gid: u32) -> c_int {
    let w = w();
    if w.tick(Op::Chown) { return -1; }
    if uid != u32::MAX { w.nodes[i].uid = uid; }
    if gid != u32::MAX { w.nodes[i].gid = gid; }
    w.observe(); 0
}
unsafe fn do_chmod(i: usize, m: u32) -> c_int {
    let w = w();
    if w.tick(Op::Chmod) { return -1; }
    w.nodes[i].mode = m & 0o7777;
    w.observe(); 0
}
#[no_mangle] pub unsafe extern "C" fn chown(p: *const c_char, u: u32, g: u32) -> c_int { match w().follow(cbytes(p)) { Some(i) => do_chown(i, u, g), None => w().fail(libc::ENOENT) } }
#[no_mangle] pub unsafe extern "C" fn lchown(p: *const c_char, u: u32, g: u32) -> c_int { match w().find(cbytes(p)) { Some(i) => do_chown(i, u, g), None => w().fail(libc::ENOENT) } }
#[no_mangle] pub unsafe extern "C" fn fchownat(_d: c_int, p: *const c_char, u: u32, g: u32, f: c_int) -> c_int { if f & libc::AT_SYMLINK_NOFOLLOW != 0 { lchown(p, u, g) } else { chown(p, u, g) } }
#[no_mangle] pub unsafe extern "C" fn chmod(p: *const c_char, m: u32) -> c_int { match w().follow(cbytes(p)) { Some(i) => do_chmod(i, m), None => w().fail(libc::ENOENT) } }
#[no_mangle] pub unsafe extern "C" fn fchmodat(_d: c_int, p: *const c_char, m: u32, _f: c_int) -> c_int { chmod(p, m) }
// on a socket descriptor these two change the socket's own inode, not the name in the file system
#[no_mangle] pub unsafe extern "C" fn fchown(_fd: c_int, _u: u32, _g: u32) -> c_int { let w = w(); if w.tick(Op::Chown) { return -1; } 0 }
#[no_mangle] pub unsafe extern "C" fn fchmod(_fd: c_int, _m: u32) -> c_int { let w = w(); if w.tick(Op::Chmod) { return -1; } 0 }
#[no_mangle] pub unsafe extern "C" fn umask(m: u32) -> u32 { let w = w(); let o = w.umask; w.umask = m & 0o777; o }
/// A wait with a time limit can end without anything having happened (the
/// first two times; then the pair is there).
fn timed_out(limited: bool) -> bool { let w = w(); limited && w.timeouts < 2 && sym::fork(2, nm!("time limit of a wait expires")) == 1 && { w.timeouts += 1; true } }
unsafe fn wait_readable(op: Op, fd: c_int) -> c_int {
    let w = w();
    w.selects += 1;
    if w.tick(op) { return -1; }
    if w.sigint(op) { w.errno = libc::EINTR; return -1; }    // select(2), poll(2) are never restarted
    match fdx(fd) {
        Some(f) if f.kind == F_LISTEN => {
            // the pair is let in only by the permissions in force now
            w.waiting();
            1
        }
        Some(_) => 1,
        None => w.fail(libc::EBADF),
    }
}
#[no_mangle] pub unsafe extern "C" fn select(n: c_int, r: *mut libc::fd_set, _w: *mut libc::fd_set, _e: *mut libc::fd_set, t: *mut libc::timeval) -> c_int {
    if !(0..=1024).contains(&n) { return w().fail(libc::EINVAL); }
    if r.is_null() { if !t.is_null() { return 0; } w().hung = true; w().errno = libc::EINTR; return -1; }
    for fd in 0..n { if libc::FD_ISSET(fd, r) { if timed_out(!t.is_null()) { libc::FD_ZERO(r); return 0; } return wait_readable(Op::Select, fd); } }
    if !t.is_null() { return 0; }
    w().hung = true; w().errno = libc::EINTR; -1
}
#[no_mangle] pub unsafe extern "C" fn pselect(n: c_int, r: *mut libc::fd_set, w: *mut libc::fd_set, e: *mut libc::fd_set, t: *mut libc::timeval, _s: *const c_void) -> c_int { select(n, r, w, e, t) }
#[no_mangle] pub unsafe extern "C" fn ppoll(p: *mut libc::pollfd, n: libc::nfds_t, t: *const c_void, _s: *const c_void) -> c_int { poll(p, n, if t.is_null() { -1 } else { 1 }) }
#[no_mangle] pub unsafe extern "C" fn poll(p: *mut libc::pollfd, n: libc::nfds_t, t: c_int) -> c_int {
    if n == 0 { return 0; }
    // std looks at descriptors 0-2 this way when a process starts
    if n > 1 || fdx((*p).fd).map_or(true, |f| f.kind != F_LISTEN && f.kind != F_STREAM) { return 0; }
    if (*p).events & libc::POLLIN == 0 { (*p).revents = (*p).events; return 1; }
    if timed_out(t >= 0) { (*p).revents = 0; return 0; }
    let r = wait_readable(Op::Select, (*p).fd); if r == 1 { (*p).revents = libc::POLLIN; } r
}
#[no_mangle] pub unsafe extern "C" fn accept4(fd: c_int, a: *mut libc::sockaddr_un, l: *mut u32, _f: c_int) -> c_int {
    let w = w();
    if w.tick(Op::Accept) { return -1; }
    match fdx(fd) { Some(f) if f.kind == F_LISTEN => {}, _ => return w.fail(libc::EINVAL) }
    if w.selects == 0 {
        // nobody waited before: this call blocks, and std retries it on EINTR
        w.blocking += 1;
        if w.sigint_at as u32 == w.blocking { w.hung = true; }
        w.waiting();
    }
    if !a.is_null() { (*a).sun_family = libc::AF_UNIX as u16; *l = 2; }
    w.accepts += 1;
    w.newfd(F_STREAM, 0)
}
#[no_mangle] pub unsafe extern "C" fn accept(fd: c_int, a: *mut libc::sockaddr_un, l: *mut u32) -> c_int { accept4(fd, a, l, 0) }
#[no_mangle] pub unsafe extern "C" fn shutdown(fd: c_int, h: c_int) -> c_int { let w = w(); if w.tick(Op::Shutdown) { return -1; } if let Some(f) = fdx(fd) { if f.kind == F_STREAM { w.shutdowns += 1; w.shut_rd |= h != 1; w.shut_wr |= h != 0; w.shut = w.shut_rd & w.shut_wr; return 0; } } w.fail(libc::ENOTCONN) }
#[no_mangle] pub unsafe extern "C" fn sigaction(sig: c_int, new: *const libc::sigaction, old: *mut libc::sigaction) -> c_int {
    let w = w();
    if sig != libc::SIGINT { if !old.is_null() { *old = std::mem::zeroed(); } return 0; }
    if w.tick(Op::Sigaction) { return -1; }
    w.sa_calls += 1;
    if !old.is_null() { *old = w.sa; }
    if !new.is_null() { w.sa = *new; }
    0
}
#[no_mangle] pub unsafe extern "C" fn siginterrupt(sig: c_int, on: c_int) -> c_int { if sig == libc::SIGINT { if on != 0 { w().sa.sa_flags &= !libc::SA_RESTART } else { w().sa.sa_flags |= libc::SA_RESTART } } 0 }
#[no_mangle] pub unsafe extern "C" fn signal(_s: c_int, _h: size_t) -> size_t { 0 }
#[no_mangle] pub unsafe extern "C" fn sigaltstack(_a: *const c_void, _b: *mut c_void) -> c_int { 0 }
#[no_mangle] pub unsafe extern "C" fn fcntl(fd: c_int, c: c_int, a: c_int) -> c_int {
    if fdx(fd).is_none() { return w().fail(libc::EBADF); }
    match c { libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => dup(fd), libc::F_SETFL if a & libc::O_NONBLOCK != 0 => sym::limit(nm!("non-blocking descriptors are outside the model")), _ => 0 }
}
#[no_mangle] pub unsafe extern "C" fn fcntl64(fd: c_int, c: c_int, a: c_int) -> c_int { fcntl(fd, c, a) }
#[no_mangle] pub unsafe extern "C" fn ioctl(fd: c_int, c: u64, _a: *mut c_void) -> c_int { if c == libc::FIONBIO && *(_a as *const c_int) != 0 { sym::limit(nm!("non-blocking descriptors are outside the model")) } if fdx(fd).is_some() { 0 } else { w().fail(libc::EBADF) } }
#[no_mangle] pub unsafe extern "C" fn setsockopt(_fd: c_int, _l: c_int, n: c_int, v: *const i64, _s: u32) -> c_int { if n == libc::SO_RCVTIMEO { w().rcv_limit = *v != 0 || *v.add(1) != 0; } 0 }
#[no_mangle] pub unsafe extern "C" fn getsockopt(_fd: c_int, _l: c_int, n: c_int, v: *mut c_int, _s: *mut u32) -> c_int { if n == libc::SO_PEERCRED { *v = 90; *v.add(1) = 0; *v.add(2) = 0; } else { *v = 0; } 0 }
#[no_mangle] pub unsafe extern "C" fn geteuid() -> u32 { w().euid }
#[no_mangle] pub unsafe extern "C" fn getegid() -> u32 { w().egid }
#[no_mangle] pub unsafe extern "C" fn getuid() -> u32 { w().uid }
#[no_mangle] pub unsafe extern "C" fn getgid() -> u32 { w().gid }
#[no_mangle] pub unsafe extern "C" fn getpid() -> c_int { 77 }
#[no_mangle] pub unsafe extern "C" fn getppid() -> c_int { 78 }
#[no_mangle] pub unsafe extern "C" fn getpgrp() -> c_int { 79 }
#[no_mangle] pub unsafe extern "C" fn getsid(_p: c_int) -> c_int { 80 }
#[no_mangle] pub unsafe extern "C" fn getgroups(_n: c_int, _l: *mut u32) -> c_int { 0 }
#[no_mangle] pub unsafe extern "C" fn isatty(fd: c_int) -> c_int { match fdx(fd) { Some(f) if f.kind == F_FILE && w().nodes[f.node].kind == TTY => 1, Some(_) => { w().errno = libc::ENOTTY; 0 } None => { w().errno = libc::EBADF; 0 } } }
#[no_mangle] pub unsafe extern "C" fn sync() {}
#[no_mangle] pub unsafe extern "C" fn fsync(fd: c_int) -> c_int { if fdx(fd).is_some() { 0 } else { w().fail(libc::EBADF) } }
#[no_mangle] pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int { fsync(fd) }
#[no_mangle] pub unsafe extern "C" fn dup(fd: c_int) -> c_int { match fdx(fd) { Some(f) => { let r = w().newfd(f.kind, f.node); w().fds[w().at(r)] = f; r } None => w().fail(libc::EBADF) } }
#[no_mangle] pub unsafe extern "C" fn clock_gettime(_c: c_int, t: *mut libc::timespec) -> c_int { let w = w(); w.clock += 1; (*t).tv_sec = 1_700_000_000 + w.clock as i64; (*t).tv_nsec = 0; 0 }
#[no_mangle] pub unsafe extern "C" fn nanosleep(_a: *const c_void, _b: *mut c_void) -> c_int { 0 }
#[no_mangle] pub unsafe extern "C" fn clock_nanosleep(_c: c_int, _f: c_int, _a: *const c_void, _b: *mut c_void) -> c_int { 0 }
#[no_mangle] pub unsafe extern "C" fn usleep(_u: u32) -> c_int { 0 }
#[no_mangle] pub unsafe extern "C" fn sched_yield() -> c_int { 0 }
#[no_mangle] pub unsafe extern "C" fn sigemptyset(s: *mut u64) -> c_int { for i in 0..16 { *s.add(i) = 0; } 0 }
#[no_mangle] pub unsafe extern "C" fn sigfillset(s: *mut u64) -> c_int { for i in 0..16 { *s.add(i) = !0; } 0 }
#[no_mangle] pub unsafe extern "C" fn sigaddset(s: *mut u64, n: c_int) -> c_int { *s |= 1 << (n - 1); 0 }
#[no_mangle] pub unsafe extern "C" fn sigdelset(s: *mut u64, n: c_int) -> c_int { *s &= !(1 << (n - 1)); 0 }
#[no_mangle] pub unsafe extern "C" fn sigismember(s: *const u64, n: c_int) -> c_int { (*s >> (n - 1) & 1) as c_int }
/// Blocking SIGINT would make every wait deaf to Ctrl-C.
#[no_mangle] pub unsafe extern "C" fn sigprocmask(how: c_int, new: *const u64, old: *mut u64) -> c_int {
    let w = w();
    if !old.is_null() { *old = (w.blocked as u64) << 1; for i in 1..16 { *old.add(i) = 0; } }
    if !new.is_null() { let b = *new >> 1 & 1 != 0; match how { libc::SIG_BLOCK => w.blocked |= b, libc::SIG_UNBLOCK => w.blocked &= !b, _ => w.blocked = b } }
    0
}
#[no_mangle] pub unsafe extern "C" fn pthread_sigmask(how: c_int, new: *const u64, old: *mut u64) -> c_int { sigprocmask(how, new, old) }
#[no_mangle] pub unsafe extern "C" fn getsockname(_fd: c_int, a: *mut libc::sockaddr_un, l: *mut u32) -> c_int { (*a).sun_family = libc::AF_UNIX as u16; *l = 2; 0 }
#[no_mangle] pub unsafe extern "C" fn getpeername(_fd: c_int, a: *mut libc::sockaddr_un, l: *mut u32) -> c_int { (*a).sun_family = libc::AF_UNIX as u16; *l = 2; 0 }
#[no_mangle] pub unsafe extern "C" fn sendmsg(fd: c_int, m: *const libc::msghdr, _f: c_int) -> ssize_t { writev(fd, (*m).msg_iov, (*m).msg_iovlen as c_int) }
#[no_mangle] pub unsafe extern "C" fn recvmsg(fd: c_int, m: *mut libc::msghdr, _f: c_int) -> ssize_t { readv(fd, (*m).msg_iov, (*m).msg_iovlen as c_int) }
#[no_mangle] pub unsafe extern "C" fn secure_getenv(_n: *const c_char) -> *const c_char { std::ptr::null() }
#[no_mangle] pub static mut environ: *const *const c_char = std::ptr::null();
#[no_mangle] pub unsafe extern "C" fn getenv(_n: *const c_char) -> *const c_char { std::ptr::null() }
#[no_mangle] pub unsafe extern "C" fn getcwd(_b: *mut c_char, _n: size_t) -> *mut c_char { w().errno = libc::ENOENT; std::ptr::null_mut() }
#[no_mangle] pub unsafe extern "C" fn readlink(_p: *const c_char, _b: *mut c_char, _n: size_t) -> ssize_t { w().fail(libc::ENOENT) as ssize_t }
#[no_mangle] pub unsafe extern "C" fn realpath(_p: *const c_char, _b: *mut c_char) -> *mut c_char { w().errno = libc::ENOENT; std::ptr::null_mut() }
#[no_mangle] pub unsafe extern "C" fn sysconf(_n: c_int) -> i64 { -1 }
#[no_mangle] pub unsafe extern "C" fn __errno_location() -> *mut c_int { core::ptr::addr_of_mut!(w().errno) }
#[no_mangle] pub unsafe extern "C" fn __xpg_strerror_r(e: c_int, b: *mut c_char, n: size_t) -> c_int { let m = match e { libc::EINTR => &b"Interrupted system call\0"[..], libc::EPIPE => &b"Broken pipe\0"[..], _ => &b"Error\0"[..] }; for i in 0..m.len().min(n) { *b.add(i) = m[i] as c_char; } 0 }

// ------------------------------------------------------------- sudo's printf
/// Stand-in for sudo's printf: interprets the conversions the way printf
/// does, recording what the user would see.
pub unsafe extern "C" fn printf(level: c_int, fmt: *const c_char, a1: *const c_char, a2: *const c_char) -> c_int {
    let w = w();
    w.last_level = level;
    if level == 3 { w.perr += 1 } else { w.pinfo += 1 }
    if w.printf_fail || (w.printf_fail_at != 0 && w.perr + w.pinfo == w.printf_fail_at) { w.printf_failed = true; w.errno = libc::EIO; return -1; }
    let n0 = w.printed.n;
    let mut p = fmt as *const u8;
    let mut used = 0;
    while *p != 0 {
        if *p == b'%' {
            p = p.add(1);
            match *p {
                b'%' => w.printed.put(b"%"),
                b's' => { let a = if used == 0 { a1 } else { a2 }; used += 1; if sym::engine() && used > 2 { w.bad_fmt = true; return -1; } w.printed.put(cbytes(a)); }
                b'.' if *p.add(1) == b'*' && *p.add(2) == b's' && used == 0 => { p = p.add(2); used = 2; w.printed.put(std::slice::from_raw_parts(a2 as *const u8, a1 as usize as u32 as usize)); }
                _ => { w.bad_fmt = true; return -1; }
            }
            p = p.add(1);
        } else { w.printed.put(std::slice::from_raw_parts(p, 1)); p = p.add(1); }
    }
    (w.printed.n - n0) as c_int
}
