//! Harnesses for the callback layer of sudo_plugin, through two plugins
//! defined with its macro: one that heeds sudo's logging hints, one that
//! ignores them.
use crate::session::*;
use crate::sym;
use crate::world::{same, w};
use sudo_plugin::prelude::*;
use std::fmt;

pub const M_OPEN: u8 = 1; pub const M_CLOSE: u8 = 2; pub const M_VERSION: u8 = 3;
pub const M_TTYIN: u8 = 4; pub const M_TTYOUT: u8 = 5; pub const M_STDIN: u8 = 6; pub const M_STDOUT: u8 = 7; pub const M_STDERR: u8 = 8; pub const M_WINSIZE: u8 = 9;
/// What the plugin's methods do, and what they were called with.
pub struct Probe { pub act: u8, pub calls: u32, pub last: u8, pub ptr: usize, pub len: usize, pub a: i64, pub b: i64, pub dropped: u32, pub on_open: Option<fn(&'static IoEnv)>, pub env: usize }
pub static mut P: Probe = Probe { act: 0, calls: 0, last: 0, ptr: 0, len: 0, a: 0, b: 0, dropped: 0, on_open: None, env: 0 };
pub fn p() -> &'static mut Probe { unsafe { &mut *core::ptr::addr_of_mut!(P) } }

/// An error whose treatment by sudo is its number, with `depth` causes.
#[derive(Debug)]
pub struct E { pub code: u8, pub cause: Option<Box<E>> }
impl E { pub fn chain(code: u8, depth: usize) -> E { E { code, cause: if depth > 0 { Some(Box::new(E::chain(code + 1, depth - 1))) } else { None } } } }
impl fmt::Display for E { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(match self.code { 0 => "zero", 1 => "one", 2 => "two", 3 => "three", 4 => "four", _ => "many" }) } }
impl std::error::Error for E { fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { self.cause.as_deref().map(|e| e as &dyn std::error::Error) } }
impl From<Error> for E { fn from(e: Error) -> E { E { code: match e { Error::UncaughtPanic => 8, _ => 2 }, cause: None } } }
impl From<E> for OpenStatus { fn from(e: E) -> OpenStatus { match e.code { 0 => OpenStatus::Ok, 1 => OpenStatus::Disable, 2 => OpenStatus::Deny, _ => OpenStatus::Usage } } }
impl From<E> for LogStatus { fn from(e: E) -> LogStatus { match e.code { 0 => LogStatus::Ok, 1 => LogStatus::Disable, _ => LogStatus::Deny } } }

fn did(m: u8, ptr: usize, len: usize, a: i64, b: i64) -> Result<(), E> {
    let p = p();
    p.calls += 1; p.last = m; p.ptr = ptr; p.len = len; p.a = a; p.b = b;
    match p.act { 0 => Ok(()), 9 => panic!("probe"), k => Err(E { code: k - 1, cause: None }) }
}
pub struct Heeds(u8);
pub struct Ignores(u8);
macro_rules! plugin { ($t:ident, $n:expr, $ig:expr) => {
    impl IoPlugin for $t {
        type Error = E;
        const NAME: &'static str = $n;
        const VERSION: &'static str = "v9";
        const IGNORE_IOLOG_HINTS: bool = $ig;
        fn show_version(_e: &IoEnv, v: bool) { let _ = did(M_VERSION, 0, 0, v as i64, 0); }
        fn open(env: &'static IoEnv) -> Result<Self, E> { p().env = env as *const IoEnv as usize; if let Some(f) = p().on_open { f(env) } did(M_OPEN, 0, 0, 0, 0).map(|_| $t(7)) }
        fn close(self, a: i32, b: i32) { let _ = did(M_CLOSE, 0, 0, a as i64, b as i64); }
        fn log_ttyin(&self, l: &[u8]) -> Result<(), E> { did(M_TTYIN, l.as_ptr() as usize, l.len(), 0, 0) }
        fn log_ttyout(&self, l: &[u8]) -> Result<(), E> { did(M_TTYOUT, l.as_ptr() as usize, l.len(), 0, 0) }
        fn log_stdin(&self, l: &[u8]) -> Result<(), E> { did(M_STDIN, l.as_ptr() as usize, l.len(), 0, 0) }
        fn log_stdout(&self, l: &[u8]) -> Result<(), E> { did(M_STDOUT, l.as_ptr() as usize, l.len(), 0, 0) }
        fn log_stderr(&self, l: &[u8]) -> Result<(), E> { did(M_STDERR, l.as_ptr() as usize, l.len(), 0, 0) }
        fn change_winsize(&self, a: u64, b: u64) -> Result<(), E> { did(M_WINSIZE, 0, 0, a as i64, b as i64) }
    }
    impl Drop for $t { fn drop(&mut self) { if self.0 == 7 { p().dropped += 1; } } }
} }
plugin!(Heeds, "heeds", false);
plugin!(Ignores, "ignores", true);
sudo_io_plugin!{ probe_heeds : Heeds }
sudo_io_plugin!{ probe_ignores : Ignores }
/// A plugin that overrides nothing.
pub struct Plain;
impl IoPlugin for Plain { type Error = E; const NAME: &'static str = "plain"; const VERSION: &'static str = "v3"; fn open(env: &'static IoEnv) -> Result<Self, E> { if let Some(f) = p().on_open { f(env) } Ok(Plain) } }
sudo_io_plugin!{ probe_plain : Plain }
pub fn heeds() -> Plugin { Plugin(unsafe { core::ptr::addr_of!(probe_heeds) as *const Table }) }
pub fn ignores() -> Plugin { Plugin(unsafe { core::ptr::addr_of!(probe_ignores) as *const Table }) }
pub fn plain() -> Plugin { Plugin(unsafe { core::ptr::addr_of!(probe_plain) as *const Table }) }

fn ends(b: &[u8], t: &[u8]) -> bool { b.len() >= t.len() && same(&b[b.len() - t.len()..], t) }

/// The exported table itself.
pub fn table(_a: &[&'static str]) {
    for t in [Plugin::pair(), heeds(), ignores(), plain()] {
        let t = t.t();
        check!(t.type_ == 2, "the table is not that of an I/O plugin");
        check!(t.version >> 16 == 1 && t.version & 0xffff >= 9, "the table announces an API version the plugin does not support");
        check!(t.open.is_some() && t.close.is_some() && t.show_version.is_some() && t.log_ttyin.is_some() && t.log_ttyout.is_some() && t.log_stdin.is_some() && t.log_stdout.is_some() && t.log_stderr.is_some() && t.change_winsize.is_some(), "a callback is missing from the table");
        check!(t.register_hooks.is_none() && t.deregister_hooks.is_none() && t.log_suspend.is_none() && t.event_alloc.is_null(), "a slot of the table that nothing implements is set");
        cover!("table");
    }
}

/// Each log callback reaches its own method with sudo's own buffer, subject
/// to the hint, and its result becomes sudo's status.
/// args: 0 heeds hints / 1 ignores them; buffer length
pub fn dispatch(a: &[&'static str]) {
    let ignore = n(a, 0) == 1;
    let pl = if ignore { ignores() } else { heeds() };
    w().init();
    let mut s = Sess::base();
    del(&mut s.cmd, b"iolog_ttyout");
    let ch = sym::fork(5, nm!("channel")) as usize;
    let mut on = false;
    for (i, k) in [&b"iolog_ttyin"[..], b"iolog_ttyout", b"iolog_stdin", b"iolog_stdout", b"iolog_stderr"].iter().enumerate() {
        // the other channels' hints are all set or all clear
        let h = if i == ch { sym::fork(4, nm!("hint")) } else if i == (ch + 1) % 5 { sym::fork(2, nm!("other hints")) } else { 0 };
        match h { 0 => {} 1 => put(&mut s.cmd, k, b"true"), 2 => put(&mut s.cmd, k, b"false"), _ => put(&mut s.cmd, k, b"yes") }
        if i == ch { on = h == 1; }
    }
    check!(pl.open(&s) == OPEN_OK, "the plugin did not open");
    let mut b = vec![0u8; n(a, 1)]; sym::bytes(&mut b, nm!("buffer"));
    p().calls = 0; p().act = [0, 1, 2, 3, 9][sym::fork(5, nm!("what the method does")) as usize];
    let act = p().act; let e0 = w().perr;
    let r = pl.log(ch, &b);
    if on || ignore {
        check!(p().calls == 1, "a log callback did not reach the plugin exactly once");
        check!(p().last == M_TTYIN + ch as u8, "a log callback reached the wrong method");
        check!(p().ptr == b.as_ptr() as usize && p().len == b.len(), "a log callback passed on another buffer than sudo's");
        let want = match act { 0 => 1, 1 => 1, 2 => -1, _ => 0 };
        check!(r == want, "the result of a log callback is not what the plugin returned");
        if act == 1 || act == 2 || act == 3 {
            check!(w().perr > e0, "an error of the plugin was not shown to the user");
            check!(ends(w().printed.get(), match act { 1 => b": zero\n", 2 => b"s: one\n", _ => b"s: two\n" }), "the error shown is not the plugin's");
            cover!("error");
        }
        if act == 9 { cover!("panic"); }
        cover!("called");
    } else {
        check!(p().calls == 0, "a channel that sudo does not log reached the plugin");
        check!(r == LOG_OK, "a channel that sudo does not log was refused");
        cover!("not called");
    }
    p().act = 0;
    pl.close(0, 0);
}
/// open, show_version, change_winsize and close.
pub fn dispatch2(a: &[&'static str]) {
    let pl = if n(a, 0) == 1 { ignores() } else { heeds() };
    w().init();
    let s = Sess::base();
    let act = [0u8, 1, 2, 3, 4, 9][sym::fork(6, nm!("what open does")) as usize];
    p().act = act;
    let r = pl.open(&s);
    check!(p().calls == 1 && p().last == M_OPEN, "open did not reach the plugin exactly once");
    let want = match act { 0 => 1, 1 => 1, 2 => 0, 3 => -1, 4 => -2, _ => -1 };
    check!(r == want, "the result of open is not what the plugin returned");
    if act != 0 && act != 9 { check!(w().perr > 0, "an error of the plugin was not shown to the user"); cover!("open failed"); }
    p().calls = 0;
    let v = sym::u32(nm!("verbose")) as i32;
    p().act = [0u8, 9][sym::fork(2, nm!("what show_version does")) as usize];
    let r = pl.show_version(v);
    check!(p().calls == 1 && p().last == M_VERSION, "show_version did not reach the plugin exactly once");
    check!((p().a != 0) == (v != 0), "show_version lost whether the user asked for detail");
    check!(r == if p().act == 0 { OPEN_OK } else { OPEN_DENY }, "the status of show_version is wrong");
    if act != 0 { return; }
    cover!("opened");
    p().calls = 0;
    let (l, c) = (sym::u32(nm!("lines")), sym::u32(nm!("columns")));
    p().act = [0u8, 1, 2, 3, 9][sym::fork(5, nm!("what change_winsize does")) as usize];
    let r = pl.winsize(l, c);
    check!(p().calls == 1 && p().last == M_WINSIZE, "change_winsize did not reach the plugin exactly once");
    check!((p().a == l as i64) & (p().b == c as i64), "change_winsize passed on another size");
    check!(r == match p().act { 0 => 1, 1 => 1, 2 => -1, _ => 0 }, "the result of change_winsize is not what the plugin returned");
    p().calls = 0; p().act = 0;
    let (x, y) = (sym::u32(nm!("exit status")) as i32, sym::u32(nm!("error")) as i32);
    check!(p().dropped == 0, "the plugin was dropped before close");
    pl.close(x, y);
    check!(p().calls == 1 && p().last == M_CLOSE, "close did not reach the plugin exactly once");
    check!((p().a == x as i64) & (p().b == y as i64), "close passed on another status");
    check!(p().dropped == 1, "close did not release the plugin");
    p().calls = 0;
    pl.close(0, 0);
    check!(p().calls == 0, "a second close reached the plugin again");
    cover!("closed");
}
/// A panic anywhere is reported as a refusal, and does not take the process down.
pub fn panics(a: &[&'static str]) {
    let pl = if n(a, 0) == 1 { ignores() } else { heeds() };
    w().init();
    let mut s = Sess::base();
    for k in [&b"iolog_ttyin"[..], b"iolog_ttyout", b"iolog_stdin", b"iolog_stdout", b"iolog_stderr"] { put(&mut s.cmd, k, b"true"); }
    // any callback, before open or after it, with the plugin's method panicking
    let open = sym::fork(2, nm!("opened")) == 1;
    if open { check!(pl.open(&s) == OPEN_OK, "the plugin did not open"); }
    p().act = 9;
    for _ in 0..n(a, 1) {
        match sym::fork(8, nm!("callback")) {
            0 => { if open { check!(pl.show_version(sym::u32(nm!("verbose")) as i32) == OPEN_DENY, "a panic in show_version was not reported"); } else { check!(pl.show_version(0) != OPEN_OK, "a version was shown without open"); } }
            1 => check!(pl.winsize(sym::u32(nm!("rows")), sym::u32(nm!("columns"))) == LOG_DENY, "a panic in change_winsize was not reported as a refusal"),
            2 => { pl.close(sym::u32(nm!("exit status")) as i32, sym::u32(nm!("error")) as i32); cover!("close panicked"); afresh(pl); return; }
            k => check!(pl.log(k as usize - 3, if sym::fork(2, nm!("anything in the buffer")) == 1 { b"x" } else { b"" }) == LOG_DENY, "a panic in a log callback was not reported as a refusal"),
        }
        cover!("panicked");
    }
    if !open { check!(pl.open(&s) == OPEN_DENY, "a panic in open was not reported as a refusal"); pl.close(0, 0); afresh(pl); }
}
/// Whatever panicked before, a session opened after close is a session of its own.
fn afresh(pl: Plugin) {
    let mut s = Sess::base();
    put(&mut s.user, b"user", b"other"); put(&mut s.cmd, b"iolog_ttyout", b"true");
    p().act = 0; unsafe { SEEN = 0; }
    p().on_open = Some(|env| { if env.user_info.user == "other" { unsafe { SEEN = 1; } } });
    check!(pl.open(&s) == OPEN_OK && unsafe { SEEN } == 1, "a session after a panic is not given facts of its own");
    check!(pl.log(TTYOUT, b"x") == LOG_OK && p().last == M_TTYOUT, "a session after a panic is not answered");
    pl.close(3, 4);
    check!(p().last == M_CLOSE && p().a == 3 && p().b == 4, "a session after a panic is not closed");
    cover!("a session after a panic");
}

/// The oldest API version accepted is 1.9; versions survive packing.
pub fn version(_a: &[&'static str]) {
    w().init();
    let mut s = Sess::base();
    let v = sym::u32(nm!("API version")); s.version = v;
    p().on_open = Some(|env| { let v: std::os::raw::c_uint = env.api_version.into(); p().a = v as i64; unsafe { SEEN = v; } });
    let r = plain().open(&s);
    let major = v >> 16; let minor = v & 0xffff;
    let ok = (major > 1) | ((major == 1) & (minor >= 9));
    if r == OPEN_OK { check!(ok, "an API version older than 1.9 was accepted"); check!(unsafe { SEEN } == v, "the plugin sees another API version than sudo's"); cover!("accepted"); }
    else { check!(!ok, "an API version of 1.9 or newer was refused"); check!(r == OPEN_DENY, "an unsupported API version was not denied"); check!(w().perr > 0, "the user was not told why"); cover!("refused"); }
    let (a, b) = (sym::u16(nm!("major")) as u32, sym::u16(nm!("minor")) as u32);
    let m = sudo_plugin::sys::sudo_api_mkversion(a, b);
    check!(m == a * 65536 + b, "a version is packed wrongly");
    check!(sudo_plugin::sys::sudo_api_version_get_major(m) == a && sudo_plugin::sys::sudo_api_version_get_minor(m) == b, "a version is unpacked wrongly");
}
static mut SEEN: u32 = 0;

// ------------------------------------------------------------------- output
static mut BUF: Vec<u8> = Vec::new();
static mut WHICH: u32 = 0;
fn print_it(env: &'static IoEnv) {
    use std::io::Write;
    let b = unsafe { &BUF };
    let w = w();
    let mut nul = false; for x in b { nul = nul | (*x == 0); }
    let nul = sym::pick(nul as u32) != 0;
    let r = if unsafe { WHICH } == 0 { env.stdout().write_all(b) } else { env.stderr().write_all(b) };
    if w.printf_fail || nul || unsafe { WHICH } == 2 {
        check!(b.len() == 0 || r.is_err(), "text that could not be printed was reported as printed");
        cover!("not printed");
    } else {
        check!(r.is_ok(), "printing failed");
        check!(!w.bad_fmt, "the text was interpreted as a format");
        check!(w.printed.is(b), "the user sees something else than the text");
        if b.len() > 0 { check!(w.last_level == if unsafe { WHICH } == 0 { 4 } else { 3 }, "the text goes to the wrong stream"); }
        cover!("printed");
    }
}
/// Text reaches the user byte for byte.  args: bytes
pub fn print(a: &[&'static str]) {
    w().init();
    let mut s = Sess::base();
    let mut b = vec![0u8; n(a, 0)]; sym::bytes(&mut b, nm!("text"));
    unsafe { BUF = b; WHICH = sym::fork(3, nm!("stdout, stderr, no printf")); if WHICH == 2 { s.printf = false; } }
    w().printf_fail = sym::fork(2, nm!("printf fails")) == 1;
    p().on_open = Some(print_it);
    let r = plain().open(&s);
    check!(r == OPEN_OK, "the plugin did not open");
    w().printf_fail = false;
}
const NAMES: [&str; 7] = ["p", "", "four", "plain", "sudo_pair", "%s\u{e9}", "a plugin with a rather long name that goes on and on"];
/// Plugins that only differ in their name.
macro_rules! named { ($($t:ident $s:ident $i:expr),*) => { $(
    pub struct $t;
    impl IoPlugin for $t { type Error = E; const NAME: &'static str = NAMES[$i]; const VERSION: &'static str = "v3"; fn open(env: &'static IoEnv) -> Result<Self, E> { if let Some(f) = p().on_open { f(env) } Ok($t) } }
    sudo_io_plugin!{ $s : $t }
)*
    fn named(i: u32) -> Plugin { Plugin(unsafe { match i { $($i => core::ptr::addr_of!($s) as *const Table,)* _ => unreachable!() } }) }
} }
named!(N0 probe_n0 0, N1 probe_n1 1, N2 probe_n2 2, N3 probe_n3 3, N4 probe_n4 4, N5 probe_n5 5, N6 probe_n6 6);
static mut NAME_: u32 = 0;
fn tag() -> Vec<u8> { [NAMES[unsafe { NAME_ } as usize].as_bytes(), b": "].concat() }
fn with_facility(f: fn(&'static IoEnv)) {
    p().on_open = Some(f);
    check!(named(unsafe { NAME_ }).open(&Sess::base()) == OPEN_OK, "the plugin did not open");
}
fn fails() { let w = w(); w.perr = 0; w.pinfo = 0; w.printf_fail_at = sym::fork(8, nm!("failing call of printf")); }
/// One line, and texts of any length.  args: bytes of the line (long: any of SIZES)
pub fn print_line(a: &[&'static str]) {
    w().init();
    let mut b: Vec<u8>;
    if a[0] == "long" {
        let k = crate::h_pair::SIZES[sym::fork(crate::h_pair::SIZES.len() as u32, nm!("size")) as usize];
        b = (0..k).map(|j| { let b = (j * 7 + j / 251) as u8; if b == 0 { b'.' } else { b } }).collect();
        let mut at = 0;
        for e in [0usize, 128, 256, 1024, 4096, 8192, 65536, k] { let (lo, hi) = (e.saturating_sub(2).max(at), (e + 2).min(k)); if lo < hi { sym::bytes(&mut b[lo..hi], nm!("text")); at = hi; } }
    } else {
        b = vec![0u8; n(a, 0)]; sym::bytes(&mut b, nm!("line"));
        unsafe { NAME_ = sym::fork(NAMES.len() as u32, nm!("name of the plugin")); }
    }
    let mut ok = true; for x in &b { ok = ok & (*x != 0); } sym::assume(ok);
    unsafe { BUF = b; WHICH = (a[0] == "long") as u32; }
    with_facility(print_one);
}
fn print_one(env: &'static IoEnv) {
    use std::io::Write;
    let w = w(); let b = unsafe { &BUF }; let tag = tag();
    if unsafe { WHICH } == 0 { fails(); }
    let err = sym::fork(2, nm!("stream")) == 1;
    let mut f = if err { env.stderr() } else { env.stdout() };
    let line = sym::fork(2, nm!("a line")) == 1;
    let (r, want) = if line { (f.write_line(&b), [&tag[..], &b, b"\n"].concat()) } else { (f.write_all(&b).and_then(|_| f.flush()), b.clone()) };
    let failed = w.printf_failed; w.printf_fail_at = 0;
    if failed { check!(r.is_err(), "text that could not be printed was reported as printed"); cover!("not printed"); return; }
    check!(r.is_ok(), "printing failed");
    check!(w.printed.is(&want), "the user sees something else than the text");
    if want.len() > 0 { check!(if err { w.pinfo == 0 && w.perr > 0 } else { w.perr == 0 && w.pinfo > 0 }, "the text goes to the wrong stream"); }
    cover!("printed");
}
#[derive(Debug)]
struct T(&'static [&'static str], usize, Option<Box<T>>);
impl T { fn chain(o: usize, k: usize) -> T { T(TEXTS, o, if k > 0 { Some(Box::new(T::chain(o + 1, k - 1))) } else { None }) } }
impl fmt::Display for T { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.0[self.1 % self.0.len()]) } }
impl std::error::Error for T { fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { self.2.as_deref().map(|e| e as &dyn std::error::Error) } }
const TEXTS: &[&str] = &["zero", "zero", "", "100% of %s and %n", "h\u{e9}", " blank ", "one: two", "a text that goes on for longer than the others do, so that whatever small buffer somebody had in mind for it is too small for it"];
/// An error is shown with its causes, and showing it ends.
pub fn error_chain(_a: &[&'static str]) {
    w().init();
    unsafe { NAME_ = sym::fork(NAMES.len() as u32, nm!("name of the plugin")); }
    with_facility(show_chain);
}
fn show_chain(env: &'static IoEnv) {
    let w = w(); let tag = tag();
    let k = [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 256, 257][sym::fork(23, nm!("causes")) as usize]; let o = sym::fork(TEXTS.len() as u32, nm!("message")) as usize;
    fails();
    let r = env.stderr().write_error(&T::chain(o, k));
    let failed = w.printf_failed; w.printf_fail_at = 0;
    if failed { check!(r.is_err(), "an error that could not be shown was reported as shown"); cover!("not shown"); return; }
    check!(r.is_ok(), "an error could not be shown");
    let mut want = b"\n".to_vec();
    for i in 0..k + 1 { want.extend_from_slice(&tag); want.extend_from_slice(TEXTS[(o + i) % TEXTS.len()].as_bytes()); want.push(b'\n'); }
    check!(w.printed.is(&want), "an error is not shown with all its causes, once each");
    check!(w.last_level == 3 && w.pinfo == 0, "an error goes to standard output");
    cover!("shown");
    if k > 1 { cover!("causes shown"); }
}
