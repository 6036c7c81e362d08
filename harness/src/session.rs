//! Drives the plugin through its exported C table, the way sudo does.
use crate::world::{self, same, w};
use libc::{c_char, c_int, c_uint, c_void};

pub type LogFn = unsafe extern "C" fn(*const c_char, c_uint, *mut *const c_char) -> c_int;
/// struct io_plugin of sudo_plugin.h (API 1.17), written down here
/// independently of the crate's bindings.
#[repr(C)]
pub struct Table {
    pub type_: c_uint,
    pub version: c_uint,
    pub open: Option<unsafe extern "C" fn(c_uint, *const c_void, *const c_void, *const *mut c_char, *const *mut c_char, *const *mut c_char, c_int, *const *mut c_char, *const *mut c_char, *const *mut c_char, *mut *const c_char) -> c_int>,
    pub close: Option<unsafe extern "C" fn(c_int, c_int)>,
    pub show_version: Option<unsafe extern "C" fn(c_int) -> c_int>,
    pub log_ttyin: Option<LogFn>,
    pub log_ttyout: Option<LogFn>,
    pub log_stdin: Option<LogFn>,
    pub log_stdout: Option<LogFn>,
    pub log_stderr: Option<LogFn>,
    pub register_hooks: Option<unsafe extern "C" fn(c_int, *const c_void)>,
    pub deregister_hooks: Option<unsafe extern "C" fn(c_int, *const c_void)>,
    pub change_winsize: Option<unsafe extern "C" fn(c_uint, c_uint, *mut *const c_char) -> c_int>,
    pub log_suspend: Option<unsafe extern "C" fn(c_int, *mut *const c_char) -> c_int>,
    pub event_alloc: *const c_void,
}
pub const TTYIN: usize = 0;
pub const TTYOUT: usize = 1;
pub const STDIN: usize = 2;
pub const STDOUT: usize = 3;
pub const STDERR: usize = 4;
pub const OPEN_OK: i32 = 1;
pub const OPEN_DENY: i32 = -1;
pub const LOG_OK: i32 = 1;
pub const LOG_DENY: i32 = 0;
pub const LOG_DISABLE: i32 = -1;

/// A table exported by a plugin.
#[derive(Clone, Copy)]
pub struct Plugin(pub *const Table);
impl Plugin {
    pub fn pair() -> Plugin { Plugin(unsafe { core::ptr::addr_of!(sudo_pair::sudo_pair) as *const Table }) }
    pub fn t(&self) -> &'static Table { unsafe { &*self.0 } }
    pub fn open(&self, s: &Sess) -> i32 {
        let mut err: *const c_char = std::ptr::null();
        let argv: Vec<&[u8]> = s.argv.iter().map(|v| &v[..]).collect();
        let p: *const c_void = if s.printf { world::printf as *const c_void } else { std::ptr::null() };
        unsafe { (self.t().open.unwrap())(s.version, std::ptr::null(), p, arr(&s.settings), arr(&s.user), arr(&s.cmd), argv.len() as c_int, arr(&s.argv), arr(&s.env), if s.opts_null { std::ptr::null() } else { arr(&s.opts) }, &mut err) }
    }
    pub fn log(&self, which: usize, b: &[u8]) -> i32 {
        let t = self.t();
        let f = match which { TTYIN => t.log_ttyin, TTYOUT => t.log_ttyout, STDIN => t.log_stdin, STDOUT => t.log_stdout, _ => t.log_stderr };
        let mut err: *const c_char = std::ptr::null();
        unsafe { (f.unwrap())(b.as_ptr() as *const c_char, b.len() as c_uint, &mut err) }
    }
    pub fn winsize(&self, l: u32, c: u32) -> i32 { let mut err: *const c_char = std::ptr::null(); unsafe { (self.t().change_winsize.unwrap())(l, c, &mut err) } }
    pub fn show_version(&self, v: i32) -> i32 { unsafe { (self.t().show_version.unwrap())(v) } }
    pub fn close(&self, a: i32, b: i32) { unsafe { (self.t().close.unwrap())(a, b) } }
}

/// The ith argument of a harness as a number (absent: 0).
pub fn n(a: &[&'static str], i: usize) -> usize { if i < a.len() { a[i].parse::<usize>().unwrap() } else { 0 } }
/// Does `b` contain `t`?
pub fn has(b: &[u8], t: &[u8]) -> bool { let mut i = 0; while i + t.len() <= b.len() { if same(&b[i..i + t.len()], t) { return true; } i += 1; } false }

pub type L = Vec<Vec<u8>>;
pub struct Sess { pub version: u32, pub printf: bool, pub opts_null: bool, pub settings: L, pub user: L, pub cmd: L, pub env: L, pub opts: L, pub argv: L }

fn l(x: &[&[u8]]) -> L { x.iter().map(|s| s.to_vec()).collect() }
/// Replace (or add) `key=value`; `entry` is the whole string.
pub fn put(l: &mut L, key: &[u8], val: &[u8]) {
    let mut e = key.to_vec(); e.push(b'='); e.extend_from_slice(val);
    for x in l.iter_mut() { if x.len() > key.len() && x[key.len()] == b'=' && &x[..key.len()] == key { *x = e; return; } }
    l.push(e);
}
pub fn del(l: &mut L, key: &[u8]) { l.retain(|x| !(x.len() > key.len() && x[key.len()] == b'=' && &x[..key.len()] == key)); }

/// A NULL-terminated array of C strings (leaked: sudo keeps them alive).
pub fn arr(l: &[Vec<u8>]) -> *const *mut c_char {
    let mut v: Vec<*mut c_char> = Vec::with_capacity(l.len() + 1);
    for s in l { let mut c = Vec::with_capacity(s.len() + 1); c.extend_from_slice(s); c.push(0); v.push(Box::leak(c.into_boxed_slice()).as_mut_ptr() as *mut c_char); }
    v.push(std::ptr::null_mut());
    Box::leak(v.into_boxed_slice()).as_ptr()
}
impl Sess {
    /// alice-like user 7 (gid 3, groups 3) runs `c` as root with output logging on.
    pub fn base() -> Sess {
        Sess { version: (1 << 16) | 17, printf: true, opts_null: false,
            settings: l(&[b"plugin_dir=/p", b"plugin_path=/q", b"progname=sudo"]),
            user: l(&[b"cwd=/", b"egid=2", b"euid=0", b"gid=3", b"groups=3", b"host=h", b"pgid=4", b"pid=5", b"ppid=6", b"uid=7", b"user=u"]),
            cmd: l(&[b"command=/c", b"runas_uid=0", b"runas_gid=0", b"iolog_ttyout=true", b"runas_groups=0"]),
            env: l(&[b"E=1"]),
            opts: l(&[b"socket_dir=/s", b"binary_path=/a"]),
            argv: l(&[b"c"]) }
    }
}
/// World in which a session of `Sess::base` succeeds if the pair answers `reply`.
pub fn base_world(reply: &[u8]) {
    let w = w();
    w.init();
    w.euid = 0; w.egid = 0; w.umask = 0o022;
    w.add(world::DIR, b"/s", 0, 0, 0o755, b"");
    w.sa.sa_sigaction = 0x1234; w.sa.sa_flags = libc::SA_RESTART;
    w.nreply = reply.len(); w.reply[..reply.len()].copy_from_slice(reply);
}
