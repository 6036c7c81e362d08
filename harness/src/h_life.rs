//! Whole sessions under every optional circumstance: what sudo may also pass,
//! what may also be there.  The facts a session must follow are read from the
//! lists by a reference of its own.
use crate::session::*;
use crate::sym;
use crate::world::{self, same, w};

// ---------------------------------------------------------------- reference
type B = Vec<u8>;
fn get<'a>(l: &'a L, k: &[u8]) -> Option<&'a [u8]> {
    let mut r = None;
    for e in l {
        let p = e.iter().position(|c| *c == b'=');
        let (a, b) = match p { Some(p) => (&e[..p], &e[p + 1..]), None => (&e[..], &e[..]) };
        if a == k { r = Some(b); }
    }
    r
}
fn text<'a>(l: &'a L, k: &[u8]) -> Option<&'a [u8]> { get(l, k).filter(|v| std::str::from_utf8(v).is_ok()) }
fn flag(l: &L, k: &[u8]) -> bool { matches!(get(l, k), Some(b"true")) }
fn int(v: &[u8], lo: i128, hi: i128) -> Option<i128> {
    let (neg, d) = match v.first() { Some(b'+') => (false, &v[1..]), Some(b'-') if lo < 0 => (true, &v[1..]), _ => (false, v) };
    if d.is_empty() { return None; }
    let mut x: i128 = 0;
    for c in d { if *c < b'0' || *c > b'9' || x > 1 << 70 { return None; } x = x * 10 + (*c - b'0') as i128; }
    if neg { x = -x; }
    if x < lo || x > hi { None } else { Some(x) }
}
fn u32_(l: &L, k: &[u8]) -> Option<u32> { get(l, k).and_then(|v| int(v, 0, u32::MAX as i128)).map(|x| x as u32) }
fn u64_(l: &L, k: &[u8]) -> Option<u64> { get(l, k).and_then(|v| int(v, 0, u64::MAX as i128)).map(|x| x as u64) }
fn i32_(l: &L, k: &[u8]) -> Option<i32> { get(l, k).and_then(|v| int(v, i32::MIN as i128, i32::MAX as i128)).map(|x| x as i32) }
fn list(l: &L, k: &[u8]) -> Option<Vec<u32>> {
    let v = get(l, k)?; let mut r = vec![];
    for p in v.split(|c| *c == b',') { r.push(int(p, 0, u32::MAX as i128)? as u32); }
    Some(r)
}
fn dec(mut x: u64) -> B { let mut r = vec![]; loop { r.insert(0, b'0' + (x % 10) as u8); x /= 10; if x == 0 { return r; } } }
fn deci(x: i32) -> B { if x < 0 { let mut r = vec![b'-']; r.extend(dec(x.unsigned_abs() as u64)); r } else { dec(x as u64) } }
/// The parts of a path that matter when paths are compared.
pub fn parts(p: &[u8]) -> (bool, Vec<&[u8]>) {
    let abs = p.first() == Some(&b'/'); let mut r = vec![];
    for (i, c) in p.split(|c| *c == b'/').enumerate() { if c.is_empty() || (c == b"." && (abs || i > 0)) { continue; } r.push(c); }
    (abs, r)
}
fn name_of(p: &[u8]) -> &[u8] { match parts(p).1.last() { Some(c) if *c != b".." => c, _ => p } }

pub struct Facts { pub viable: bool, pub version: bool, pub exempt: bool, pub both: bool, pub odd: bool, pub by_group: bool, pub reuid: u32, pub regid: u32, pub path: B, pub dir: B, pub sub: Vec<(u8, B)>, pub user_tpl: B, pub pair_tpl: B }
fn facts(s: &Sess) -> Facts {
    let w = w();
    let (se, us, cm) = (&s.settings, &s.user, &s.cmd);
    let none: L = vec![]; let op = if s.opts_null { &none } else { &s.opts };
    let mut viable = true;
    for k in [&b"plugin_dir"[..], b"plugin_path", b"progname"] { viable &= text(se, k).is_some(); }
    for k in [&b"cwd"[..], b"host", b"user"] { viable &= text(us, k).is_some(); }
    for k in [&b"egid"[..], b"euid", b"gid", b"uid"] { viable &= u32_(us, k).is_some(); }
    for k in [&b"pgid"[..], b"pid", b"ppid"] { viable &= i32_(us, k).is_some(); }
    viable &= list(us, b"groups").is_some();
    viable &= s.version >> 16 > 1 || (s.version >> 16 == 1 && s.version & 0xffff >= 9);
    let (uid, euid, gid) = (u32_(us, b"uid").unwrap_or(0), u32_(us, b"euid").unwrap_or(0), u32_(us, b"gid").unwrap_or(0));
    let groups = list(us, b"groups").unwrap_or_default();
    let ruid = u32_(cm, b"runas_uid").unwrap_or(w.euid); let rgid = u32_(cm, b"runas_gid").unwrap_or(w.egid);
    let (reuid, regid) = (u32_(cm, b"runas_euid").unwrap_or(ruid), u32_(cm, b"runas_egid").unwrap_or(rgid));
    let mut target = match list(cm, b"runas_groups") { Some(l) if !flag(cm, b"preserve_groups") => l, _ => groups.clone() };
    target.push(regid);
    let command = get(cm, b"command").unwrap_or(b"");
    let bin = get(op, b"binary_path").unwrap_or(b"/usr/bin/sudo_approve");
    let enforced = list(op, b"gids_enforced").unwrap_or(vec![0]); let exempted = list(op, b"gids_exempted").unwrap_or_default();
    let logged = flag(cm, b"iolog_ttyout") || flag(cm, b"iolog_stdout") || flag(cm, b"iolog_stderr");
    let exempt = uid == euid || (uid == reuid && gid == regid) || parts(command) == parts(bin) || !logged
        || groups.iter().any(|g| exempted.contains(g)) || !target.iter().any(|g| enforced.contains(g));
    let group = get(se, b"runas_group").is_some();
    let mut dir: B = get(op, b"socket_dir").unwrap_or(b"/var/run/sudo_pair").to_vec();
    while dir.len() > 1 && dir.last() == Some(&b'/') { dir.pop(); }
    let mut path = dir.clone(); path.push(b'/'); path.extend(dec(uid as u64)); path.push(b'.'); path.extend(deci(i32_(us, b"pid").unwrap_or(0))); path.extend_from_slice(b".sock");
    let file = |k: &[u8], d: &[u8], t: &[u8]| -> B { let p = get(op, k).unwrap_or(d); for i in 0..w.nn { let n = w.nodes[i]; if n.alive && n.kind == world::FILE && n.path == p { return n.data.to_vec(); } } t.to_vec() };
    let cwd = get(cm, b"cwd").or(get(us, b"cwd")).unwrap_or(b"");
    Facts { viable, version: command.is_empty(), exempt, both: uid != reuid && group, odd: uid == reuid && !group, by_group: group, reuid, regid, path, dir,
        sub: vec![(b'b', name_of(bin).to_vec()), (b'B', bin.to_vec()), (b'C', cmdline(s)), (b'd', cwd.to_vec()), (b'h', get(us, b"host").unwrap_or(b"").to_vec()),
            (b'H', dec(u64_(us, b"lines").unwrap_or(24))), (b'g', dec(gid as u64)), (b'p', deci(i32_(us, b"pid").unwrap_or(0))), (b'u', dec(uid as u64)), (b'U', get(us, b"user").unwrap_or(b"").to_vec()), (b'W', dec(u64_(us, b"cols").unwrap_or(80)))],
        user_tpl: file(b"user_prompt_path", b"/etc/sudo_pair.prompt.user", b"%B %u %p\n"), pair_tpl: file(b"pair_prompt_path", b"/etc/sudo_pair.prompt.pair", b"%U@%h:%d$ %C\ny/n? [n]: ") }
}
fn cmdline(s: &Sess) -> B {
    let l = &s.settings;
    let p = get(l, b"progname").unwrap_or(b"");
    let mut r = p.to_vec();
    let t: [(&[u8], &[u8], bool); 18] = [(b"sudoedit", b"--edit", false), (b"runas_user", b"--user ", true), (b"runas_group", b"--group ", true), (b"prompt", b"--prompt ", true), (b"login_shell", b"--login", false), (b"run_shell", b"--shell", false), (b"set_home", b"--set-home", false), (b"preserve_environment", b"--preserve-env", false), (b"preserve_groups", b"--preserve-groups", false), (b"ignore_ticket", b"--reset-timestamp", false), (b"noninteractive", b"--non-interactive", false), (b"login_class", b"--login-class ", true), (b"selinux_role", b"--role ", true), (b"selinux_type", b"--type ", true), (b"bsdauth_type", b"--auth-type ", true), (b"closefrom", b"--close-from ", true), (b"remote_host", b"--host ", true), (b"timeout", b"--command-timeout ", true)];
    for (k, f, value) in t {
        if !value { if flag(l, k) && !(k == b"sudoedit" && p == b"sudoedit") { r.push(b' '); r.extend_from_slice(f); } }
        else if let Some(v) = get(l, k) { r.push(b' '); r.extend_from_slice(f); r.extend_from_slice(v); }
    }
    for a in &s.argv { r.push(b' '); r.extend_from_slice(a); }
    r
}
fn expand(t: &[u8], f: &Facts) -> B {
    let mut r = vec![]; let mut i = 0;
    while i < t.len() {
        if t[i] != b'%' { r.push(t[i]); i += 1; continue; }
        if i + 1 == t.len() { break; }
        match f.sub.iter().find(|x| x.0 == t[i + 1]) { Some(x) => r.extend_from_slice(&x.1), None => r.push(t[i + 1]) }
        i += 2;
    }
    r
}

// -------------------------------------------------------------- decorations
#[derive(Clone, Copy, PartialEq)]
enum W { S, U, C, O, E, A, X }
use W::*;
type D = (W, &'static [u8], &'static [u8]);
const LONG: &[u8] = b"a value that goes on for much longer than such values usually do, long enough to leave behind every small fixed-size buffer somebody may have had in mind for it, and then some more of it to be sure, because two hundred and fifty-five is a popular limit too, so here we go on until it is left behind";
const MANY: &[u8] = b"101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,123,124,125,126,127,128,129,130,131,132,133,134,135,136,137,138,139,140";
const MANY0: &[u8] = b"101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,123,124,125,126,127,128,129,130,131,132,133,134,135,136,137,138,139,0";
const MANY3: &[u8] = b"101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,123,124,125,126,127,128,129,130,131,132,133,134,135,136,137,138,139,3";
const TPL: &[u8] = b"%b|%B|%C|%d|%h|%H|%g|%p|%u|%U|%W|%%|%x|%D|\xff%\xe9|end%";
/// What a session may come with besides the minimum.
const DECO: &[D] = &[
    (S, b"ignore_ticket", b"true"), (S, b"implied_shell", b"true"), (S, b"login_shell", b"true"), (S, b"noninteractive", b"true"), (S, b"preserve_environment", b"true"), (S, b"preserve_groups", b"true"), (S, b"run_shell", b"true"), (S, b"set_home", b"true"), (S, b"sudoedit", b"true"),
    (S, b"bsdauth_type", b"t"), (S, b"closefrom", b"3"), (S, b"debug_flags", b"x"), (S, b"debug_level", b"9"), (S, b"login_class", b"k"), (S, b"max_groups", b"1"), (S, b"network_addrs", b"10.0.0.1/255.255.255.0 fe80::1/ffff:ffff:ffff:ffff::"), (S, b"prompt", b"Password of %u:"), (S, b"remote_host", b"r"), (S, b"runas_user", b"root"), (S, b"selinux_role", b"r"), (S, b"selinux_type", b"t"), (S, b"timeout", b"5"), (S, b"new_setting", b"1"),
    (U, b"cols", b"132"), (U, b"lines", b"50"), (U, b"sid", b"4"), (U, b"tcpgid", b"4"), (U, b"umask", b"077"), (X, b"tty", b""), (U, b"new_fact", b"1"),
    (C, b"chroot", b"/jail"), (C, b"closefrom", b"4"), (C, b"cwd", b"/else/where"), (C, b"exec_background", b"true"), (C, b"execfd", b"5"), (C, b"iolog_compress", b"true"), (C, b"iolog_group", b"g"), (C, b"iolog_mode", b"0600"), (C, b"iolog_path", b"/log"), (C, b"iolog_stdin", b"true"), (C, b"iolog_stdout", b"true"), (C, b"iolog_stderr", b"true"), (C, b"iolog_ttyin", b"true"), (C, b"iolog_user", b"u"), (C, b"login_class", b"k"), (C, b"nice", b"-5"), (C, b"noexec", b"true"), (C, b"preserve_fds", b"3,4"), (C, b"selinux_role", b"r"), (C, b"selinux_type", b"t"), (C, b"set_utmp", b"true"), (C, b"sudoedit", b"true"), (C, b"sudoedit_checkdir", b"false"), (C, b"sudoedit_follow", b"true"), (C, b"timeout", b"60"), (C, b"umask", b"027"), (C, b"umask_override", b"true"), (C, b"use_pty", b"true"), (C, b"utmp_user", b"root"), (C, b"new_info", b"1"),
    (O, b"new_option", b"1"), (E, b"TERM", b"xterm"), (E, b"LD_PRELOAD", b"/x.so"), (A, b"", b"-l"), (A, b"", b"two words"), (X, b"user template", b""), (X, b"pair template", b""),
    // from here on the odd ones, which a rich session goes without
    (X, b"nothing", b""),
    (S, b"ignore_ticket", b"false"), (S, b"implied_shell", b"false"), (S, b"login_shell", b"yes"), (S, b"noninteractive", b"false"), (S, b"preserve_groups", b"false"), (S, b"run_shell", b"1"), (S, b"sudoedit", b"false"), (S, b"bsdauth_type", b"\xff"), (S, b"prompt", b"\xff%s%n"), (S, b"prompt", b""), (S, b"closefrom", b"-1"), (S, b"closefrom", b"18446744073709551615"), (S, b"closefrom", b"18446744073709551616"), (S, b"closefrom", b"007"), (S, b"network_addrs", b"nonsense"), (S, b"network_addrs", b""), (S, b"network_addrs", b"::1/ffff::  "), (S, b"runas_user", b"\xff"), (S, b"runas_user", b""), (S, b"runas_user", LONG), (S, b"selinux_role", LONG), (S, b"progname", b"sudoedit"), (S, b"progname", b"s"), (S, b"progname", LONG), (S, b"progname", b"\xff"), (S, b"plugin_dir", b""), (S, b"plugin_path", b"\xff"), (S, b"remote_host", b"other.example.com"), (S, b"max_groups", b"x"),
    (U, b"cols", b"0"), (U, b"cols", b"1"), (U, b"cols", b"65535"), (U, b"cols", b"65536"), (U, b"cols", b"4294967295"), (U, b"cols", b"4294967296"), (U, b"cols", b"wide"), (U, b"lines", b"0"), (U, b"lines", b"255"), (U, b"lines", b"256"), (U, b"lines", b"100000"), (U, b"lines", b"-1"), (U, b"sid", b"-1"), (U, b"tcpgid", b"x"), (U, b"tty", b"/no/such/tty"), (U, b"tty", b"\xff"), (U, b"umask", b"nonsense"), (U, b"umask", b"0"), (U, b"umask", b"0002"), (U, b"umask", b"777"),
    (U, b"uid", b"1"), (U, b"uid", b"256"), (U, b"uid", b"65535"), (U, b"uid", b"65536"), (U, b"uid", b"2147483647"), (U, b"uid", b"2147483648"), (U, b"uid", b"4294967294"), (U, b"uid", b"+9"), (U, b"uid", b"009"), (U, b"uid", b"4294967303"), (U, b"uid", b"-7"), (U, b"uid", b""), (U, b"euid", b"5"), (U, b"euid", b"4294967295"), (U, b"euid", b"7"), (U, b"egid", b"4294967295"), (U, b"egid", b"3"), (U, b"gid", b"0"), (U, b"gid", b"2147483648"), (U, b"gid", b"4294967295"), (U, b"pid", b"1"), (U, b"pid", b"99999"), (U, b"pid", b"2147483647"), (U, b"pid", b"-2"), (U, b"pid", b"2147483648"), (U, b"ppid", b"1"), (U, b"pgid", b"99"),
    (U, b"groups", b"0"), (U, b"groups", b"3,9"), (U, b"groups", b"9,3,8"), (U, b"groups", MANY), (U, b"groups", MANY3), (U, b"groups", b"2147483648,4294967295"), (U, b"groups", b"3,3"), (U, b"groups", b""), (U, b"groups", b"3,"), (U, b"groups", b"3,x"), (U, b"groups", b"3 9"), (U, b"groups", b"4294967296"),
    (U, b"host", LONG), (U, b"host", b"h\xc3\xa9"), (U, b"host", b"\xff"), (U, b"host", b""), (U, b"host", b"%h%n"), (U, b"user", LONG), (U, b"user", b"\xc3\xa9=u"), (U, b"user", b"%C"), (U, b"cwd", LONG), (U, b"cwd", b"/\xff"), (U, b"cwd", b"/a=b/%u"), (U, b"cwd", b"unknown"),
    (C, b"iolog_ttyout", b"false"), (C, b"iolog_ttyout", b"yes"), (C, b"iolog_stdout", b"false"), (C, b"iolog_stdin", b"false"), (C, b"iolog_ttyin", b"false"), (C, b"iolog_stderr", b"1"), (C, b"use_pty", b"false"), (C, b"sudoedit_checkdir", b"true"), (C, b"umask", b"9"), (C, b"umask", b"0777"), (C, b"umask", b"0"), (C, b"umask", b"0002"), (C, b"umask", b"022"), (C, b"umask", b"077"), (C, b"nice", b"x"), (C, b"timeout", b"-1"), (C, b"preserve_fds", b"x"), (C, b"preserve_groups", b"false"), (C, b"preserve_groups", b"true"), (C, b"preserve_groups", b"1"), (C, b"noexec", b"false"),
    (C, b"cwd", b"/\xff"), (C, b"cwd", b""), (C, b"cwd", b"*"), (C, b"cwd", LONG), (C, b"chroot", b"\xff"), (C, b"chroot", b"*"),
    (C, b"runas_uid", b"7"), (C, b"runas_uid", b"8"), (C, b"runas_uid", b"256"), (C, b"runas_uid", b"65536"), (C, b"runas_uid", b"2147483648"), (C, b"runas_uid", b"4294967294"), (C, b"runas_uid", b"4294967303"), (C, b"runas_uid", b"x"), (C, b"runas_euid", b"7"), (C, b"runas_euid", b"8"), (C, b"runas_euid", b"0"), (C, b"runas_euid", b"65543"), (C, b"runas_euid", b"2147483648"), (C, b"runas_euid", b"x"), (C, b"runas_gid", b"0"), (C, b"runas_gid", b"3"), (C, b"runas_gid", b"9"), (C, b"runas_gid", b"65536"), (C, b"runas_gid", b"4294967294"), (C, b"runas_gid", b""), (C, b"runas_egid", b"0"), (C, b"runas_egid", b"3"), (C, b"runas_egid", b"9"), (C, b"runas_egid", b"65539"), (C, b"runas_egid", b"2147483648"), (C, b"runas_egid", b"x"),
    (C, b"runas_groups", b"9"), (C, b"runas_groups", b"9,0"), (C, b"runas_groups", b"0,9"), (C, b"runas_groups", b"3"), (C, b"runas_groups", MANY), (C, b"runas_groups", MANY0), (C, b"runas_groups", b""), (C, b"runas_groups", b"x"), (C, b"runas_groups", b"9,x"), (C, b"runas_groups", b"4294967296"), (X, b"no runas_groups", b""), (X, b"no runas_gid", b""), (X, b"no runas_uid", b""),
    (S, b"runas_group", b"#0"), (S, b"runas_group", b"#4294967295"), (S, b"runas_group", b""), (S, b"runas_group", b"7"), (S, b"runas_group", LONG), (S, b"runas_group", b"%g"), (S, b"runas_group", b"\xff"), (S, b"runas_group", b"group=g"),
    (C, b"command", b"/usr/bin/id"), (C, b"command", LONG), (C, b"command", b"relative"), (C, b"command", b"/a"), (C, b"command", b"/a/"), (C, b"command", b"//a"), (C, b"command", b"/./a"), (C, b"command", b"/A"), (C, b"command", b"/aa"), (C, b"command", b"/x/a"), (C, b"command", b"a"), (C, b"command", b"/"), (C, b"command", b"/b/../a"), (C, b"command", b"/\xff"), (C, b"command", b"/usr/bin/sudo_approve"), (C, b"command", b"sudoedit"), (C, b"command", b""),
    (O, b"binary_path", b"/x/y"), (O, b"binary_path", b"y"), (O, b"binary_path", b"/"), (O, b"binary_path", b"/x/"), (O, b"binary_path", b"/x/.."), (O, b"binary_path", b"/c"), (O, b"binary_path", b"c"), (O, b"binary_path", b"/\xff"), (O, b"binary_path", LONG), (O, b"binary_path", b""),
    (O, b"gids_enforced", b"0"), (O, b"gids_enforced", b"9"), (O, b"gids_enforced", b"9,0"), (O, b"gids_enforced", b"0,9"), (O, b"gids_enforced", b"3"), (O, b"gids_enforced", b"x"), (O, b"gids_enforced", b""), (O, b"gids_enforced", b"9,x"), (O, b"gids_enforced", b"9 0"), (O, b"gids_enforced", MANY), (O, b"gids_enforced", MANY0), (O, b"gids_enforced", b"4294967296"), (O, b"gids_enforced", b"65536"),
    (O, b"gids_exempted", b"3"), (O, b"gids_exempted", b"9,3"), (O, b"gids_exempted", b"3,9"), (O, b"gids_exempted", b"0"), (O, b"gids_exempted", b"2"), (O, b"gids_exempted", b"x"), (O, b"gids_exempted", b"3,x"), (O, b"gids_exempted", b""), (O, b"gids_exempted", MANY), (O, b"gids_exempted", MANY3), (O, b"gids_exempted", b"4294967299"), (O, b"gids_exempted", b"65539"),
    (O, b"socket_dir", b"/var/lib/pair/"), (O, b"socket_dir", b"/x"), (O, b"socket_dir", b"/\xff"), (O, b"user_prompt_path", b"/none"), (O, b"pair_prompt_path", b"/none"), (O, b"user_prompt_path", b"/\xff"), (O, b"pair_prompt_path", b"/\xff"), (X, b"odd template paths", b""), (X, b"odd approval command", b""),
    (A, b"", b""), (A, b"", LONG), (A, b"", b"\xff\xfe"), (A, b"", b"%C%n"), (A, b"", b"--"), (X, b"no arguments", b""), (X, b"30 arguments", b""), (X, b"300 arguments", b""), (X, b"300 unknown entries", b""), (X, b"300 target groups", b""), (X, b"300 user groups", b""), (X, b"300 enforced", b""), (X, b"300 exempted", b""), (X, b"300 lesser enforced", b""), (X, b"300 lesser exempted", b""), (X, b"long cwd", b""), (X, b"long argument", b""), (X, b"300 variables", b""), (X, b"long socket_dir", b"\x61"), (X, b"long socket_dir", b"\x62"),
    (X, b"no options", b""), (X, b"no printf", b""), (X, b"open descriptors", b"\x03\xfb"), (X, b"open descriptors", b"\x03\xfc"), (X, b"open descriptors", b"\x03\xfd"), (X, b"open descriptors", b"\xff\xff"), (X, b"API 1.9", b""), (X, b"API 1.8", b""), (X, b"API 1.13", b""), (X, b"API 1.65535", b""), (X, b"API 2.0", b""), (X, b"API 0.9", b""),
    (X, b"stale socket", b""), (X, b"other sockets", b""), (X, b"short writes", b""), (X, b"byte by byte", b""), (X, b"long answer", b""), (X, b"sudo is not root's", b""), (X, b"long templates", b""), (X, b"empty templates", b""), (X, b"two of everything", b""), (X, b"everything twice", b""), (X, b"uid 0", b""), (X, b"raw entries", b""), (X, b"reverse order", b""),
];
fn rich() -> usize { DECO.iter().position(|d| d.1 == b"nothing").unwrap() }
fn numbers(last: &[u8]) -> B { let mut r = vec![]; for i in 0..300 { r.extend(dec(1000 + i)); r.push(b','); } r.extend_from_slice(last); r }
fn decorate(s: &mut Sess, d: &D) {
    let w = w();
    let (l, k, v) = *d;
    match l {
        S => put(&mut s.settings, k, v), U => put(&mut s.user, k, v), C => put(&mut s.cmd, k, v), O => put(&mut s.opts, k, v), E => put(&mut s.env, k, v), A => s.argv.push(v.to_vec()),
        X => match k {
            b"tty" => { put(&mut s.user, b"tty", b"/y"); w.add(world::TTY, b"/y", 7, 5, 0o620, b""); }
            b"user template" => { w.add(world::FILE, b"/etc/sudo_pair.prompt.user", 0, 0, 0o600, TPL); }
            b"odd template paths" => for (k, p) in [(&b"user_prompt_path"[..], &b"/u\xe9"[..]), (b"pair_prompt_path", b"/p\xe9")] { put(&mut s.opts, k, p); w.add(world::FILE, p, 0, 0, 0o600, TPL); }
            b"odd approval command" => { put(&mut s.opts, b"binary_path", b"/\xe9"); put(&mut s.cmd, b"command", b"/\xe9"); }
            b"pair template" => { w.add(world::FILE, b"/etc/sudo_pair.prompt.pair", 0, 0, 0o600, TPL); }
            b"no runas_groups" => del(&mut s.cmd, b"runas_groups"), b"no runas_gid" => del(&mut s.cmd, b"runas_gid"), b"no runas_uid" => del(&mut s.cmd, b"runas_uid"),
            b"no arguments" => s.argv.clear(), b"30 arguments" => for i in 0..30u8 { s.argv.push(vec![b'a' + i % 26, i + 1]) },
            // the user may have opened many files before starting sudo
            b"open descriptors" => w.crowd = v[0] as usize * 256 + v[1] as usize,
            b"no options" => s.opts_null = true, b"no printf" => s.printf = false,
            b"API 1.9" => s.version = 1 << 16 | 9, b"API 1.8" => s.version = 1 << 16 | 8, b"API 1.13" => s.version = 1 << 16 | 13, b"API 1.65535" => s.version = 1 << 16 | 65535, b"API 2.0" => s.version = 2 << 16, b"API 0.9" => s.version = 9,
            b"stale socket" => { w.add(world::SOCK, b"/s/7.5.sock", 9, 9, 0o777, b""); }
            b"other sockets" => { w.add(world::DIR, b"/s/7.50.sock", 0, 0, 0o600, b""); w.add(world::FILE, b"/s/7.5", 0, 0, 0o600, b""); }
            b"short writes" => { w.chunk = 7; w.tty_chunk = 3; w.read_chunk = 5; }
            b"byte by byte" => { w.chunk = 1; w.tty_chunk = 1; w.read_chunk = 1; }
            b"long answer" => { w.nreply = 64; for i in 1..64 { w.reply[i] = b"yn\n\0"[i % 4]; } }
            b"sudo is not root's" => { w.euid = 5; w.nodes[0].uid = 5; }
            b"long templates" => { let mut t = LONG.to_vec(); t.extend_from_slice(TPL); for _ in 0..5 { let u = t.clone(); if t.len() < 4000 { t.extend_from_slice(&u); } } let t: &'static [u8] = Vec::leak(t); w.add(world::FILE, b"/long", 0, 0, 0o600, t); put(&mut s.opts, b"user_prompt_path", b"/long"); put(&mut s.opts, b"pair_prompt_path", b"/long"); }
            b"empty templates" => { w.add(world::FILE, b"/empty", 0, 0, 0o600, b""); put(&mut s.opts, b"user_prompt_path", b"/empty"); put(&mut s.opts, b"pair_prompt_path", b"/empty"); }
            // the last of several entries counts
            b"two of everything" => for l in [&mut s.settings, &mut s.user, &mut s.cmd, &mut s.opts] { let mut t: L = l.iter().map(|e| { let p = e.iter().position(|c| *c == b'=').unwrap_or(e.len()); let mut x = e[..p].to_vec(); x.extend_from_slice(b"=5"); x }).collect(); t.append(l); *l = t; },
            b"everything twice" => for l in [&mut s.settings, &mut s.user, &mut s.cmd, &mut s.opts] { let mut t = l.clone(); t.append(l); *l = t; },
            // the one that counts comes last
            b"300 target groups" => { put(&mut s.cmd, b"runas_groups", &numbers(b"9")); put(&mut s.opts, b"gids_enforced", b"9"); } b"300 user groups" => put(&mut s.user, b"groups", &numbers(b"3")),
            b"300 enforced" => put(&mut s.opts, b"gids_enforced", &numbers(b"0")), b"300 exempted" => put(&mut s.opts, b"gids_exempted", &numbers(b"3")),
            b"300 lesser enforced" => { put(&mut s.opts, b"gids_enforced", &numbers(b"99999")); put(&mut s.cmd, b"runas_groups", b"99999"); } b"300 lesser exempted" => { put(&mut s.opts, b"gids_exempted", &numbers(b"99999")); put(&mut s.user, b"groups", b"99999"); }
            b"long cwd" => { let mut d = vec![]; while d.len() < 4000 { d.extend_from_slice(b"/a directory"); } put(&mut s.user, b"cwd", &d); } b"long argument" => s.argv.push((0..70000).map(|i| b' ' + (i % 90) as u8).collect()),
            b"300 variables" => for i in 0..300 { s.env.push([b"V", &dec(i)[..], b"=", &dec(i)].concat()); },
            b"long socket_dir" => { let mut d = b"/long".to_vec(); d.resize(v[0] as usize, b'g'); let d: &'static [u8] = Vec::leak(d); put(&mut s.opts, b"socket_dir", d); w.add(world::DIR, d, 0, 0, 0o755, b""); }
            b"300 arguments" => for i in 0..300u64 { s.argv.push(dec(i)) },
            b"300 unknown entries" => for l in [&mut s.settings, &mut s.user, &mut s.cmd, &mut s.opts] { for i in 0..300 { l.insert(i as usize / 2, [b"new", &dec(i)[..], b"=", &dec(i)].concat()); } },
            b"uid 0" => { put(&mut s.user, b"uid", b"0"); put(&mut s.user, b"euid", b"9"); }
            b"raw entries" => for l in [&mut s.settings, &mut s.user, &mut s.cmd, &mut s.opts] { for e in [&b"flag"[..], b"=", b"=x", b"", b"==", b"uid", b"command"] { l.insert(0, e.to_vec()); } },
            b"reverse order" => for l in [&mut s.settings, &mut s.user, &mut s.cmd, &mut s.opts] { l.reverse() },
            _ => {}
        },
    }
}

// ---------------------------------------------------------------- lifecycle
static mut MASK: usize = 0;
static mut FACTS: Option<Facts> = None;
static mut WHAT: usize = 0;
fn on(b: usize) -> bool { unsafe { MASK & b != 0 } }
macro_rules! ck { ($b:expr, $c:expr, $m:literal) => { if on($b) { check!($c, $m) } } }
pub const WHO: usize = 1; pub const ANSWER: usize = 2; pub const RIGHTS: usize = 4; pub const INSTANT: usize = 8; pub const PATH: usize = 16; pub const CLEAN: usize = 32; pub const USERP: usize = 64; pub const PAIRP: usize = 128; pub const MIRROR: usize = 256; pub const RESIZE: usize = 512; pub const STDIN_: usize = 1024; pub const BOTH: usize = 2048; pub const REQ: usize = 4096; pub const VERSION: usize = 8192; pub const WHY: usize = 16384;
pub const DIRS: usize = 1 << 15; pub const TAKEN: usize = 1 << 16; pub const CTRLC: usize = 1 << 17; pub const FAULT: usize = 1 << 18; pub const BEFORE: usize = 1 << 19; pub const AFTER: usize = 1 << 20; pub const CMDLINE: usize = 1 << 21;

fn waiting() {
    let w = w(); let f = unsafe { FACTS.as_ref().unwrap() };
    cover!("waiting for the pair");
    ck!(WHO, !f.exempt, "a session that the rules exempt was made to wait for a pair");
    ck!(VERSION, !f.version, "sudo -V waits for a pair");
    ck!(REQ, f.viable, "a session that must be denied at once waits for a pair");
    ck!(BOTH, !f.both, "a session for both another user and an explicit group went on to ask a pair");
    if f.exempt || f.version || !f.viable || f.both || f.odd { sym::stop() }
    let nd = w.nodes[w.pair_sock];
    ck!(PATH, same(nd.path, &f.path), "the socket is not at DIR/UID.PID.sock");
    if f.by_group {
        ck!(RIGHTS, (nd.gid == f.regid) & (nd.uid == w.euid) & (nd.mode & 0o222 == 0o020), "the socket of a group session is not for exactly the target group");
    } else {
        ck!(RIGHTS, (nd.uid == f.reuid) & (nd.mode & 0o222 == 0o200), "the socket is not for exactly the target user");
    }
    if on(USERP) {
        let e = expand(&f.user_tpl, f);
        if w.tty.n > 0 { check!(w.tty.is(&e) && w.printed.n == 0, "the user's terminal does not show exactly what the template says"); cover!("on the terminal"); }
        else { check!(w.printed.is(&e) || unsafe { WHAT } == 1, "the user is not shown exactly what the template says"); if e.len() > 0 { check!(w.last_level == 3 || unsafe { WHAT } == 1, "the prompt goes to standard output"); cover!("printed"); } }
        check!(!w.bad_fmt, "the prompt was interpreted as a format");
    }
}
/// args: MASK (what is checked), mode (0 one circumstance more, 1 one less than
/// nearly all, 2 two more), kind of session (0 other user, 1 other group,
/// 2.. exempt: root, self, approval command, no logging, exempted, not
/// enforced, 8 both), for mode 2: part, parts
pub fn life(a: &[&'static str]) {
    unsafe { MASK = n(a, 0); }
    base_world(b"");
    let w = w();
    if on(BEFORE) { whole(b'v', n(a, 3)); w.again(); }
    if on(AFTER) { unsafe { MASK |= MIRROR; } }
    life1(a);
    if on(AFTER) {
        w.again(); w.ready = None; w.watch = false; w.euid = 0; w.egid = 0; w.nodes[0].uid = 0; w.nodes[0].path = b"/s"; w.chunk = 0; w.tty_chunk = 0; w.read_chunk = 0;
        Plugin::pair().close(0, 0);
        whole(b'w', n(a, 3)); cover!("another session after it");
    }
}
/// A session of its own from beginning to end: kind 0 paired, 1 declined, 2
/// exempt, 3 -V, 4 denied, 5 paired with options of its own
fn whole(name: u8, kind: usize) {
    let w = w();
    let mut s = Sess::base();
    put(&mut s.user, b"user", &[name]); put(&mut s.opts, b"pair_prompt_path", b"/w"); put(&mut s.opts, b"user_prompt_path", b"/w");
    w.reply[0] = if kind == 1 { b'n' } else { b'Y' }; w.nreply = 1;
    match kind {
        2 => put(&mut s.opts, b"gids_exempted", b"3"), 3 => s.cmd = vec![], 4 => put(&mut s.user, b"pid", b"x"),
        5 => { put(&mut s.opts, b"socket_dir", b"/q"); put(&mut s.opts, b"binary_path", b"/z/zz"); put(&mut s.opts, b"gids_enforced", b"0,1,2,3,4,5"); put(&mut s.user, b"groups", b"3,4"); put(&mut s.user, b"uid", b"8"); w.add(world::DIR, b"/q", 0, 0, 0o700, b""); w.add(world::FILE, b"/w", 0, 0, 0o600, b"%U:%B:%C"); s.argv = vec![b"ls".to_vec()]; }
        _ => {}
    }
    let p = Plugin::pair();
    let r = p.open(&s);
    check!(r == if kind == 1 || kind == 4 { OPEN_DENY } else { OPEN_OK }, "a session among others has another outcome than alone");
    check!((w.accepts == 1) == (kind < 2 || kind == 5), "a session among others is paired differently than alone");
    if kind < 2 { let e = [&[name][..], b"@h:/$ sudo c\ny/n? [n]: ", &w.reply[..1], b"\n"].concat(); check!(w.sent.is(&e), "a session showed its pair another session's data"); }
    if kind == 5 { let e = [&[name][..], b":/z/zz:sudo lsY\n"].concat(); check!(w.sent.is(&e), "a session showed its pair another session's data"); }
    w.sent.clear();
    let r = p.log(STDOUT, b"o");
    match kind { 0 | 5 => check!(r == LOG_OK && w.sent.is(b"o"), "output of a paired session was not shown to the pair"), 2 => check!(r == LOG_OK && w.sent.n == 0, "output of an exempt session was refused or sent"), _ => check!(r != LOG_OK && w.sent.n == 0, "output was accepted without a session") }
    p.close(0, 0);
    check!(w.open_fds() == 0, "descriptors are open after close");
}
fn life1(a: &[&'static str]) {
    let n = |i: usize| -> usize { if i < a.len() { a[i].parse().unwrap() } else { 0 } };
    let w = w();
    let mut s = Sess::base();
    match n(2) {
        1 => { put(&mut s.cmd, b"runas_uid", b"7"); put(&mut s.settings, b"runas_group", b"g"); }
        2 => put(&mut s.user, b"uid", b"0"), 3 => { put(&mut s.cmd, b"runas_uid", b"7"); put(&mut s.cmd, b"runas_gid", b"3"); put(&mut s.cmd, b"runas_groups", b"3,0"); }
        4 => put(&mut s.cmd, b"command", b"/a"), 5 => put(&mut s.cmd, b"iolog_ttyout", b"false"), 6 => put(&mut s.opts, b"gids_exempted", b"9,3"), 7 => put(&mut s.opts, b"gids_enforced", b"9"), 8 => put(&mut s.settings, b"runas_group", b"g"),
        _ => {}
    }
    let ans = sym::u8(nm!("answer")); w.reply[0] = ans; w.nreply = 1;
    let um = sym::u16(nm!("umask")) as u32; sym::assume(um < 512); w.umask = um;
    // sudo's own effective group is one that must not get in
    w.egid = 77;
    let nd = DECO.len() as u32;
    match n(1) {
        0 => { let i = sym::fork(nd, nm!("circumstance")); decorate(&mut s, &DECO[i as usize]); }
        1 => { let k = rich(); let i = sym::fork(k as u32 + 1, nm!("left out")) as usize; for j in 0..k { if j != i { decorate(&mut s, &DECO[j]); } } }
        3 => { let k = rich(); let i = sym::fork(nd - k as u32, nm!("circumstance")) as usize; for j in 0..k { decorate(&mut s, &DECO[j]); } decorate(&mut s, &DECO[k + i]); }
        _ => { let (p, q) = (n(3) as u32, n(4) as u32); let k = (nd - p + q - 1) / q; let i = p + q * sym::fork(k, nm!("circumstance")); let j = sym::fork(nd, nm!("another circumstance")); if j <= i { return; } decorate(&mut s, &DECO[i as usize]); decorate(&mut s, &DECO[j as usize]); }
    }
    // only the command line is of interest
    if on(CMDLINE) { put(&mut s.opts, b"pair_prompt_path", b"/cmdline"); w.add(world::FILE, b"/cmdline", 0, 0, 0o600, b"%C"); }
    let f = facts(&s);
    w.nodes[0].path = Vec::leak(f.dir.clone());
    let mut safe = true; let mut free = true;
    if on(DIRS) {
        let d = &mut w.nodes[0];
        d.uid = sym::u32(nm!("owner of the socket directory")); d.mode = sym::u16(nm!("mode of the socket directory")) as u32; sym::assume(d.mode < 0o10000);
        w.euid = sym::u32(nm!("effective uid")); w.uid = sym::u32(nm!("real uid"));
        safe = (d.uid == w.euid) & (d.mode & 0o022 == 0);
        // ids sudo leaves out default to the process's own
        sym::assume(u32_(&s.cmd, b"runas_uid").is_some() || w.euid == 0);
    }
    if on(TAKEN) && !w.nodes.iter().any(|n| n.alive && n.path == f.path) {
        let kind = [world::DIR, world::FILE, world::FIFO, world::LINK, world::BLK][sym::fork(5, nm!("what is at the path")) as usize];
        w.add(kind, Vec::leak(f.path.clone()), sym::u8(nm!("its owner")) as u32, 0, (sym::u16(nm!("its mode")) & 0o7777) as u32, if kind == world::LINK { b"/k" } else { b"" });
        w.add(world::SOCK, b"/k", 0, 0, 0o600, b"");
        free = false;
    }
    if on(CTRLC) { w.sa.sa_flags = sym::u32(nm!("SIGINT flags")) as i32; w.sigint_at = sym::u8(nm!("Ctrl-C at blocking call")); sym::assume((w.sigint_at > 0) & (w.sigint_at < 12)); }
    if on(FAULT) { crate::h_pair::any_fault(false); }
    unsafe { FACTS = Some(f); WHAT = (!s.printf) as usize; }
    let f = unsafe { FACTS.as_ref().unwrap() };
    w.ready = Some(waiting);
    w.watch = on(INSTANT); w.allow_uid = f.reuid; w.allow_gid = f.regid; w.allow_by_gid = f.by_group;
    let (fl, h) = (w.sa.sa_flags, w.sa.sa_sigaction);
    let p = Plugin::pair();
    let r = p.open(&s);
    if on(DIRS | TAKEN) {
        let f = f.viable && !f.version && !f.exempt && !f.both && !f.odd;
        check!(!w.bad_unlink, "something that is not a socket was deleted");
        check!(safe || w.binds == 0, "a socket was created in a directory that others can change");
        if f && !safe { check!(r == OPEN_DENY, "a session went ahead over a socket directory that others can change"); cover!("unsafe directory"); }
        if f && !free { check!(r == OPEN_DENY, "a session went ahead although its socket path was taken"); cover!("path taken"); }
        if f && safe && free { check!(w.accepts == 1, "a safe socket directory was refused"); cover!("safe directory"); }
        return;
    }
    if on(CTRLC) {
        check!(!w.hung, "Ctrl-C does not end the wait for the pair");
        check!(!w.killed, "Ctrl-C kills sudo instead of ending the wait");
        if w.sigint_hit == world::Op::Select { check!(r == OPEN_DENY && w.accepts == 0, "Ctrl-C while waiting for a pair did not end the session"); cover!("while connecting"); }
        if w.sigint_hit == world::Op::Recv { check!(r == OPEN_DENY, "Ctrl-C while waiting for the answer did not end the session"); cover!("while answering"); }
        if w.sigint_hit != world::Op::None { return; }
    }
    if on(FAULT) {
        check!(r == OPEN_OK || r == OPEN_DENY || r == -2, "the outcome is no outcome");
        if r == OPEN_OK && !f.version && !f.exempt {
            check!(w.accepts == 1 && w.rpos > 0 && (ans == b'y') | (ans == b'Y'), "a session went ahead although the pair did not answer y"); cover!("approved");
        }
        check!(w.umask == um, "the umask was not restored");
        if r != OPEN_OK { check!(w.open_fds() == 0, "a refused session leaves descriptors open"); cover!("refused"); }
        p.close(0, 0);
        check!(w.open_fds() == 0, "descriptors are open after close");
        return;
    }
    let told = w.perr > 0 || !s.printf;
    ck!(INSTANT, !w.wide, "at some moment someone else could have connected to the socket");
    ck!(CLEAN, w.umask == um, "the umask was not restored");
    ck!(CLEAN, (w.sa.sa_flags == fl) & (w.sa.sa_sigaction == h), "the SIGINT disposition was not restored");
    ck!(CLEAN, w.nodes[w.nn - 1].stock || !w.nodes[w.nn - 1].alive, "the socket was left in the file system");
    if r != OPEN_OK { ck!(CLEAN, w.open_fds() == 0, "a refused session leaves descriptors open"); }
    if !f.viable { ck!(REQ, r == OPEN_DENY && w.accepts == 0, "a session whose facts cannot be read was not denied"); ck!(REQ | WHY, told, "the user was not told why"); cover!("not viable"); return; }
    if f.version { ck!(VERSION, r == OPEN_OK, "sudo -V was refused"); cover!("sudo -V"); p.close(0, 0); return; }
    if f.exempt {
        ck!(WHO, r == OPEN_OK, "an exempt session was refused");
        ck!(WHO, w.binds == 0 && w.tty.n == 0 && w.printed.n == 0, "an exempt session printed a prompt");
        cover!("exempt");
    } else if f.both {
        ck!(BOTH, r == OPEN_DENY && w.binds == 0, "a session for both another user and an explicit group was not denied");
        ck!(BOTH | WHY, told, "the user was not told why"); cover!("user and group");
        if s.printf { ck!(WHY, crate::session::has(w.printed.get(), b"-u and -g"), "the message does not give the reason"); }
        if r != OPEN_OK { return; }
    } else if f.odd { ck!(WHO, r == OPEN_DENY, "a session for nobody in particular went ahead"); return; }
    else {
        ck!(WHO | ANSWER, w.accepts == 1, "a session that needs a pair went ahead without one");
        let yes = (ans == b'y') | (ans == b'Y');
        ck!(ANSWER, (r == OPEN_OK) == yes, "the outcome is not what the pair answered");
        if on(PAIRP) { let mut e = expand(&f.pair_tpl, f); e.push(ans); e.push(b'\n'); check!(w.sent.is(&e), "the pair is not shown exactly what its template says"); cover!("shown"); }
        if on(CMDLINE) && !s.opts_null { let mut e = cmdline(&s); e.push(ans); e.push(b'\n'); check!(w.sent.is(&e), "the command line shown is not the one that was typed"); cover!("command line"); }
        if r != OPEN_OK {
            ck!(WHY, told, "the user was not told why");
            if s.printf { ck!(WHY, crate::session::has(w.printed.get(), b"declined"), "the message does not give the reason"); }
            cover!("declined"); return;
        }
    }
    if unsafe { MASK } & (CLEAN | MIRROR | RESIZE | STDIN_) == 0 { return; }
    if w.accepts > 1 || (w.accepts == 0) != f.exempt { return; }
    w.sent.clear(); let e0 = w.perr;
    let mut want = vec![];
    if on(MIRROR) {
        for (ch, k) in [(TTYOUT, 3), (STDERR, 1), (STDOUT, 2), (TTYOUT, 9)] {
            let mut b = vec![0u8; k]; sym::bytes(&mut b, nm!("output"));
            let r = p.log(ch, &b);
            check!(r == LOG_OK, "output was refused although the pair could see it");
            if !f.exempt { want.extend_from_slice(&b); }
            check!(w.sent.is(&want), "the pair did not see the output exactly as printed");
        }
        cover!("mirrored");
    }
    if on(RESIZE) { w.sent.clear(); let r = p.winsize(50, 1000); check!(r == LOG_OK && w.sent.is(if f.exempt { b"" } else { b"\x1b[8;50;1000t" }), "a window size change was not shown to the pair"); cover!("resized"); }
    if on(STDIN_) {
        w.sent.clear();
        let mut b = vec![0u8; 2]; sym::bytes(&mut b, nm!("piped input"));
        let r = p.log(STDIN, &b);
        if f.exempt { check!(r == LOG_OK, "an exempt session may not be piped to"); } else { check!(r == LOG_DENY, "input was piped to a paired session"); check!(w.perr > e0 || !s.printf, "the user was not told why"); cover!("denied"); }
        check!(p.log(TTYIN, &b) == LOG_OK, "terminal input was refused");
        check!(w.sent.n == 0, "input was shown to the pair");
    }
    p.close(0, 0);
    ck!(CLEAN, w.open_fds() == 0 && (f.exempt || w.stream_closed > 0), "descriptors are open after close");
    ck!(CLEAN, w.umask == um, "the umask was not restored by close");
    cover!("closed");
}
