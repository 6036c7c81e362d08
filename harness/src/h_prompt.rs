//! Harnesses for templates and prompts.
use crate::h_pair::{any_fault, dec, fork_bool, num};
use crate::session::*;
use crate::sym;
use crate::world::{self, same, w, Op};

#[cfg(feature = "tmpl")]
#[allow(dead_code)]
#[path = "/repo/sudo_pair/src/template.rs"]
mod template;
#[cfg(feature = "tmpl")]
use template::Spec;

/// What a template means: `esc x` is the value of x, or x itself.
fn expand(esc: u8, t: &[u8], val: &dyn Fn(u8) -> Option<Vec<u8>>) -> Vec<u8> {
    let mut r = vec![]; let mut i = 0;
    while i < t.len() {
        if !fork_bool(t[i] == esc) { r.push(t[i]); i += 1; continue; }
        if i + 1 == t.len() { break; }      // documented: a lone escape at the end is dropped
        match val(t[i + 1]) { Some(v) => r.extend_from_slice(&v), None => r.push(t[i + 1]) }
        i += 2;
    }
    r
}
/// args: template bytes, value bytes of the first expansion, of the second, any escape byte?
#[cfg(feature = "tmpl")]
pub fn template_(a: &[&'static str]) {
    if a[0] == "long" { return template_long(); }
    let mut t = vec![0u8; n(a, 0)]; sym::bytes(&mut t, nm!("template"));
    let mut x = vec![0u8; n(a, 1)]; sym::bytes(&mut x, nm!("first value"));
    let mut y = vec![0u8; n(a, 2)]; sym::bytes(&mut y, nm!("second value"));
    let esc = if n(a, 3) == 1 { sym::u8(nm!("escape")) } else { b'%' };
    let (kx, ky) = (sym::u8(nm!("first key")), sym::u8(nm!("second key")));
    let mut s = if n(a, 3) == 1 { Spec::with_escape(esc) } else { Spec::new() };
    s.replace(kx, x.clone()); s.replace(ky, y.clone());
    let r = s.expand(&t);
    // a later definition of the same letter wins
    let e = expand(esc, &t, &|b| if fork_bool(b == ky) { Some(y.clone()) } else if fork_bool(b == kx) { Some(x.clone()) } else { None });
    check!(r.len() == e.len() && same(&r, &e), "a template expands to something else than it says");
    cover!("expanded");
    if e.len() != t.len() { cover!("length changed"); }
}

/// Long templates, long values, many expansions.
#[cfg(feature = "tmpl")]
fn template_long() {
    let fill = |k: usize, salt: usize| -> Vec<u8> {
        let mut b: Vec<u8> = (0..k).map(|j| { let c = ((j * 7 + j / 251 + salt) % 256) as u8; if c == b'%' { b'$' } else { c } }).collect();
        for i in [0, k.saturating_sub(1)] { if i < k { b[i] = sym::u8(nm!("byte")); } }
        b
    };
    let pre = fill([0, 1, 127, 255, 256, 1024, 4096, 8192, 70000][sym::fork(9, nm!("bytes before")) as usize], 0);
    let (post, x) = (fill(3, 9), fill([0, 1, 255, 257, 600][sym::fork(5, nm!("length of the value")) as usize], 5));
    let many = [1, 2, 300][sym::fork(3, nm!("how many expansions")) as usize];
    for b in [&pre, &post] { for i in [0, b.len().saturating_sub(1)] { if i < b.len() { sym::assume(b[i] != b'%'); } } }
    let k = sym::u8(nm!("key"));
    let mut s = Spec::new();
    // every letter means something
    let all = pre.len() < 256 && sym::fork(2, nm!("every other letter defined")) == 1;
    if all { for i in 0..=255u8 { s.replace(i, vec![i, i ^ 1]); } }
    s.replace(b'k', x.clone());
    if all || many > 2 { sym::assume((k >= b'j') & (k <= b'l')); }
    let mut t = pre.clone(); let mut e = pre.clone();
    for i in 0..many { t.extend_from_slice(b"%k-"); e.extend_from_slice(&x); e.push(b'-'); if all && i % 16 == 0 { t.push(b'%'); t.push(i as u8); if i as u8 == b'k' { e.extend_from_slice(&x); } else { e.push(i as u8); e.push(i as u8 ^ 1); } } }
    t.extend_from_slice(&post); e.extend_from_slice(&post);
    t.push(b'%'); t.push(k); if fork_bool(k == b'k') { e.extend_from_slice(&x); } else { e.push(k); if all { e.push(k ^ 1); } }
    let r = s.expand(&t);
    check!(r.len() == e.len() && same(&r, &e), "a template expands to something else than it says");
    cover!("expanded");
}

#[cfg(not(feature = "tmpl"))]
pub fn template_(_a: &[&'static str]) { sym::limit(nm!("the template module cannot be compiled on its own")) }

/// The session whose every expansion is symbolic; returns the expected values.
struct Vals { host: Vec<u8>, user: Vec<u8>, cwd: Vec<u8>, arg: Vec<u8>, uid: Vec<u8>, gid: Vec<u8>, pid: Vec<u8>, lines: Vec<u8>, cols: Vec<u8>, bin: Vec<u8> }
impl Vals {
    fn get(&self, b: u8) -> Option<Vec<u8>> {
        let t: [(u8, Vec<u8>); 11] = [
            (b'b', self.bin.clone()), (b'B', { let mut v = b"/x/".to_vec(); v.extend_from_slice(&self.bin); v }),
            (b'C', { let mut v = b"sudo ".to_vec(); v.extend_from_slice(&self.arg); v }), (b'd', self.cwd.clone()), (b'h', self.host.clone()),
            (b'H', self.lines.clone()), (b'g', self.gid.clone()), (b'p', self.pid.clone()), (b'u', self.uid.clone()), (b'U', self.user.clone()), (b'W', self.cols.clone())];
        for (k, v) in t { if fork_bool(b == k) { return Some(v); } }
        None
    }
}
fn ascii(k: usize, name: &'static str) -> Vec<u8> { let mut v = vec![0u8; k]; sym::bytes(&mut v, name); let mut ok = true; for x in &v { ok = ok & (*x != 0) & (*x < 0x80); } sym::assume(ok); v }
fn values(s: &mut Sess, variant: usize) -> Vals {
    let user = ascii(1, nm!("user")); put(&mut s.user, b"user", &user);
    let host = ascii(1, nm!("host")); put(&mut s.user, b"host", &host);
    let mut cwd = b"/".to_vec(); cwd.extend_from_slice(&ascii(1, nm!("cwd")));
    if variant == 1 { put(&mut s.cmd, b"cwd", &cwd); } else { put(&mut s.user, b"cwd", &cwd); }
    let mut arg = vec![0u8; 2]; sym::bytes(&mut arg, nm!("argument")); sym::assume((arg[0] != 0) & (arg[1] != 0)); s.argv = vec![arg.clone()];
    let (uid, u) = num(1, nm!("uid")); put(&mut s.user, b"uid", &uid); sym::assume((u != 0) & (u != 8));
    let (gid, _) = num(1, nm!("gid")); put(&mut s.user, b"gid", &gid);
    let (pid, _) = num(2, nm!("pid")); put(&mut s.user, b"pid", &pid);
    let pid = dec(&pid);
    put(&mut s.cmd, b"runas_uid", b"8");
    let (mut lines, mut cols) = (b"24".to_vec(), b"80".to_vec());
    if variant != 2 { let (l, _) = num(1, nm!("lines")); put(&mut s.user, b"lines", &l); lines = l; let (c, _) = num(1, nm!("columns")); put(&mut s.user, b"cols", &c); cols = c; }
    let bin = { let v = vec![sym::u8(nm!("approval command"))]; sym::assume((v[0] != 0) & (v[0] != b'/') & (v[0] != b'.')); v };
    let mut path = b"/x/".to_vec(); path.extend_from_slice(&bin); put(&mut s.opts, b"binary_path", &path);
    Vals { host, user, cwd, arg, uid, gid, pid, lines, cols, bin }
}
static mut SEEN: Vec<u8> = Vec::new();
/// What the pair is shown before it answers.
/// args: template bytes (0: no file), variant (0, 1: cwd of the command, 2: no terminal size), faults,
/// bytes per read and write (0: all)
pub fn remote_prompt(a: &[&'static str]) {
    base_world(b"y");
    let w = w();
    let mut s = Sess::base();
    let v = values(&mut s, n(a, 1));
    let k = n(a, 0);
    put(&mut s.opts, b"pair_prompt_path", b"/t");
    put(&mut s.opts, b"user_prompt_path", b"/none");
    let mut t = vec![0u8; k];
    let dflt = b"%U@%h:%d$ %C\ny/n? [n]: ".to_vec();
    if k > 0 { sym::bytes(&mut t, nm!("template")); let d: &'static [u8] = Vec::leak(t.clone()); w.add(world::FILE, b"/t", 0, 0, 0o600, d); } else { t = dflt.clone(); }
    w.chunk = n(a, 3); w.read_chunk = n(a, 3);
    if n(a, 2) > 0 { any_fault(false); sym::assume(w.fault_errno != libc::EINTR); }
    let r = Plugin::pair().open(&s);
    if n(a, 2) > 0 {
        if r != OPEN_OK { return; }
        if w.faulted == Op::Open || w.faulted == Op::Read { cover!("template unreadable"); if !w.sent.is(&cat(&expand(b'%', &t, &|b| v.get(b)), b"y\n")) { t = dflt; } }
        if w.faulted == Op::Send || w.faulted == Op::Sigaction { return; }
    }
    check!(r == OPEN_OK, "the session was refused");
    let mut e = expand(b'%', &t, &|b| v.get(b));
    e.extend_from_slice(b"y\n");
    check!(w.sent.is(&e), "the pair is not shown exactly what its template says");
    cover!("shown");
}
fn cat(a: &[u8], b: &[u8]) -> Vec<u8> { let mut v = a.to_vec(); v.extend_from_slice(b); v }

fn at_socket() {
    let w = w();
    let e = unsafe { &SEEN };
    let on_tty = unsafe { TTY };
    if on_tty == 1 { check!(w.tty.is(e), "the user's terminal does not show exactly what the template says"); check!(w.printed.n == 0, "the prompt is shown twice"); cover!("on the terminal"); }
    else {
        check!(!w.bad_fmt, "the prompt was interpreted as a format");
        check!(w.printed.is(e), "the user is not shown exactly what the template says");
        if e.len() > 0 { check!(w.last_level == 3, "the prompt goes to standard output"); }
        cover!("printed");
    }
}
static mut TTY: u32 = 0;
/// What the user is shown while waiting.
/// args: template bytes (0: no file), bytes per read and write (0: all)
pub fn local_prompt(a: &[&'static str]) {
    base_world(b"y");
    let w = w();
    let mut s = Sess::base();
    let k = n(a, 0);
    let v = values(&mut s, 0);
    let mut t = vec![0u8; k];
    put(&mut s.opts, b"user_prompt_path", b"/t");
    if k > 0 { sym::bytes(&mut t, nm!("template")); let d: &'static [u8] = Vec::leak(t.clone()); w.add(world::FILE, b"/t", 0, 0, 0o600, d); } else { t = b"%B %u %p\n".to_vec(); }
    let e = expand(b'%', &t, &|b| v.get(b));
    let mut nul = false; for x in &e { nul = nul | (*x == 0); } sym::assume(!nul);
    unsafe { SEEN = e; TTY = sym::fork(3, nm!("no terminal, terminal, terminal that cannot be opened")); }
    match unsafe { TTY } { 1 => { put(&mut s.user, b"tty", b"/y"); w.add(world::TTY, b"/y", 7, 5, 0o620, b""); } 2 => put(&mut s.user, b"tty", b"/z"), _ => {} }
    w.tty_chunk = n(a, 1); w.read_chunk = n(a, 1);
    w.early = Some(at_socket);
    let r = Plugin::pair().open(&s);
    check!(r != OPEN_OK, "the session went ahead without a pair");
    check!(false, "the prompt kept the session from asking a pair");
}
/// Prompts of any length.  args: 0 for the pair, 1 for the user's terminal, 2 without a terminal
pub fn long_prompt(a: &[&'static str]) {
    base_world(b"y");
    let w = w();
    let mut s = Sess::base();
    put(&mut s.opts, b"pair_prompt_path", b"/t"); put(&mut s.opts, b"user_prompt_path", if n(a, 0) > 0 { b"/t" } else { b"/none" });
    let k = crate::h_pair::SIZES[sym::fork(crate::h_pair::SIZES.len() as u32, nm!("size")) as usize];
    let mut t: Vec<u8> = (0..k).map(|j| { let b = (j * 7 + j / 251) as u8; if b == 0 || b == b'%' { b'.' } else { b } }).collect();
    let mut at = 0; let mut ok = true;
    for e in [0usize, 128, 256, 1024, 4096, 8192, 65536, k] { let (lo, hi) = (e.saturating_sub(2).max(at), (e + 2).min(k)); if lo < hi { sym::bytes(&mut t[lo..hi], nm!("template")); for b in &t[lo..hi] { ok = ok & (*b != b'%') & ((*b != 0) | (n(a, 0) == 0)); } at = hi; } }
    sym::assume(ok);
    let mut e = t.clone();
    if sym::fork(2, nm!("ends in an expansion")) == 1 { t.extend_from_slice(b"%U%%"); e.extend_from_slice(get_user(&s)); e.push(b'%'); }
    w.add(world::FILE, b"/t", 0, 0, 0o600, Vec::leak(t));
    let c = [0, 1000, 4095][sym::fork(3, nm!("bytes per read and write")) as usize];
    w.chunk = c; w.read_chunk = c; w.tty_chunk = c;
    if n(a, 0) == 1 { put(&mut s.user, b"tty", b"/y"); w.add(world::TTY, b"/y", 7, 5, 0o620, b""); }
    if n(a, 0) > 0 { unsafe { SEEN = e; TTY = (n(a, 0) == 1 && SEEN.len() > 0) as u32; } w.early = Some(at_socket); let _ = Plugin::pair().open(&s); check!(false, "the prompt kept the session from asking a pair"); return; }
    let r = Plugin::pair().open(&s);
    check!(r == OPEN_OK, "the session was refused");
    e.extend_from_slice(b"y\n");
    check!(w.sent.is(&e), "the pair is not shown exactly what its template says");
    cover!("shown");
}
fn get_user(s: &Sess) -> &[u8] { for e in &s.user { if e.starts_with(b"user=") { return &e[5..]; } } b"" }
fn got_there() { cover!("asked"); sym::stop() }
/// Trouble with the user's prompt never decides the session.
pub fn local_trouble(_a: &[&'static str]) {
    base_world(b"y");
    let w = w();
    let mut s = Sess::base();
    put(&mut s.opts, b"user_prompt_path", b"/t");
    match sym::fork(3, nm!("template")) { 0 => {} 1 => { w.add(world::FILE, b"/t", 0, 0, 0o600, b"hello\n"); } _ => { w.add(world::DIR, b"/t", 0, 0, 0o700, b""); } }
    match sym::fork(3, nm!("terminal")) { 1 => { put(&mut s.user, b"tty", b"/y"); w.add(world::TTY, b"/y", 7, 5, 0o620, b""); } 2 => put(&mut s.user, b"tty", b"/z"), _ => {} }
    match sym::fork(3, nm!("printf")) { 1 => w.printf_fail = true, 2 => s.printf = false, _ => {} }
    w.fault_at = sym::u8(nm!("failing call")); sym::assume(w.fault_at < 40);
    w.fault2_at = sym::u8(nm!("second failing call")); sym::assume((w.fault2_at < 40) & ((w.fault2_at == 0) | (w.fault2_at > w.fault_at)));
    let e = sym::u8(nm!("errno")) as i32; sym::assume((e > 0) & (e < 134) & (e != libc::EINTR)); w.fault_errno = e; w.fault2_errno = e;
    w.early = Some(got_there);
    let r = Plugin::pair().open(&s);
    check!(failed_any(&[Op::Stat, Op::Unlink]) && r == OPEN_DENY, "trouble with the user's prompt decided the session");
}
fn failed_any(l: &[Op]) -> bool { let w = w(); for o in l { if w.faulted == *o || w.faulted2 == *o { return true; } } false }

/// Why a session is refused.
pub fn reasons(_a: &[&'static str]) {
    base_world(b"y");
    let w = w();
    let mut s = Sess::base();
    let why = sym::fork(6, nm!("reason"));
    match why {
        0 => { let b = sym::u8(nm!("answer")); sym::assume((b != b'y') & (b != b'Y')); w.reply[0] = b; }
        1 => w.nreply = 0,
        2 => w.nodes[0].mode = 0o777,
        3 => put(&mut s.settings, b"runas_group", b"g"),
        4 => { w.fault_at = 0; w.send_fail_at = 2; let e = sym::u8(nm!("errno")) as i32; sym::assume((e > 0) & (e < 134) & (e != libc::EINTR)); w.send_err = e; w.nreply = 1; }
        _ => { put(&mut s.cmd, b"iolog_stdin", b"true"); }
    }
    if why == 4 { w.send_fail_at = 4; }
    put(&mut s.opts, b"user_prompt_path", b"/none");
    w.add(world::TTY, b"/y", 7, 5, 0o620, b""); put(&mut s.user, b"tty", b"/y");
    let p = Plugin::pair();
    let r = p.open(&s);
    let text: &[u8] = match why { 0 | 1 => b"declined", 2 => b"communications", 3 => b"-u and -g", 4 => b"ended", _ => b"stdin" };
    if why >= 4 {
        check!(r == OPEN_OK, "the session was refused");
        w.printed.clear();
        if why == 4 { w.send_fail_at = 1; check!(p.log(TTYOUT, b"x") == LOG_DENY, "lost output did not end the session"); } else { check!(p.log(STDIN, b"x") == LOG_DENY, "input was piped to a paired session"); }
    } else { check!(r == OPEN_DENY, "the session was not denied"); }
    let out = w.printed.get();
    check!(out.len() > 0 && w.last_level == 3, "the user is not told why");
    check!(has(out, b"sudo_pair: "), "the message does not say where it comes from");
    check!(has(out, text), "the message does not give the reason");
    check!(out[out.len() - 1] == b'\n', "the message does not end its line");
    cover!("told");
}
