//! Harnesses for the sudo_pair plugin, driven through its exported table.
use crate::session::*;
use crate::sym;
use crate::world::{self, same, w, Op};

static mut WIDE: (u32, u32, &[u8]) = (0, u32::MAX, b"");
/// `n` symbolic decimal digits; the value they denote.  With `n` above 10, the
/// numbers have `n` - 10 digits, except for any one of them, which is close
/// to a power of two instead.
pub fn num(n: usize, name: &'static str) -> (Vec<u8>, u32) {
    let (mut d, mut k) = (vec![], n);
    if n > 10 {
        k = n - 10;
        let wd = unsafe { &mut *core::ptr::addr_of_mut!(WIDE) };
        if wd.0 == 0 { wd.1 = sym::fork(14, nm!("which number is wide")); wd.2 = [&b"2"[..], b"655", b"21474836", b"42949672"][sym::fork(4, nm!("how wide"))  as usize]; }
        if wd.0 == wd.1 { d = wd.2.to_vec(); k = 2; }
        wd.0 += 1;
    }
    let f = d.len();
    d.resize(f + k, 0);
    sym::bytes(&mut d[f..], name);
    let mut v = 0u32; let mut ok = true;
    if f == 8 && d[0] == b'4' { ok = (d[8] < b'9') | (d[9] <= b'5'); }
    for x in d.iter() { ok = ok & (*x >= b'0') & (*x <= b'9'); v = v.wrapping_mul(10).wrapping_add((*x).wrapping_sub(b'0') as u32); }
    sym::assume(ok);
    (d, v)
}
/// A comma-separated list of `n` numbers of `k` digits.
pub fn nums(n: usize, k: usize, name: &'static str) -> (Vec<u8>, Vec<u32>) {
    let mut s = vec![]; let mut v = vec![];
    for i in 0..n { let (d, x) = num(k, name); if i > 0 { s.push(b','); } s.extend_from_slice(&d); v.push(x); }
    (s, v)
}
pub fn flag(b: bool) -> &'static [u8] { if b { b"true" } else { b"false" } }
fn member(x: u32, l: &[u32]) -> bool { let mut r = false; for y in l { r = r | (*y == x); } r }
fn meet(a: &[u32], b: &[u32]) -> bool { let mut r = false; for x in a { r = r | member(*x, b); } r }

pub fn fork_bool(b: bool) -> bool { sym::pick(b as u32) != 0 }
/// Decimal digits of `v`, for a value that came from `num` (case-splits on leading zeros).
pub fn dec(d: &[u8]) -> Vec<u8> { let mut i = 0; while i + 1 < d.len() && d[i] == b'0' { i += 1; } d[i..].to_vec() }
/// The nth system call that can fail does, with some errno (0: none does).
pub fn any_fault(two: bool) {
    let w = w();
    w.fault_at = sym::u8(nm!("failing call")); sym::assume(w.fault_at < 64);
    if two { w.fault2_at = sym::u8(nm!("second failing call")); sym::assume(w.fault2_at < 64); sym::assume((w.fault2_at == 0) | (w.fault2_at > w.fault_at)); }
    let e = sym::u8(nm!("errno")) as i32; sym::assume((e > 0) & (e < 134)); w.fault_errno = e; w.fault2_errno = e;
    if two { let e = sym::u8(nm!("second errno")) as i32; sym::assume((e > 0) & (e < 134)); w.fault2_errno = e; }
}
/// Did a call of this kind fail?
pub fn failed(op: Op) -> bool { w().faulted == op || w().faulted2 == op }

// ---------------------------------------------------------------- exemption
static mut EXEMPT: bool = false;
static mut BOTH: bool = false;
fn socket_wanted() {
    cover!("pairing required");
    check!(unsafe { !EXEMPT }, "a session that the rules exempt was made to wait for a pair");
    check!(unsafe { !BOTH }, "a session for both another user and an explicit group went on to ask a pair");
}

/// Who needs a pair.
/// args: digits, groups, runas_groups, enforced, exempted, effective ids given?, explicit group? (2: not UTF-8)
pub fn exempt(a: &[&'static str]) {
    let k = n(a, 0);
    base_world(b"");
    let mut s = Sess::base();
    let (d, uid) = num(k, nm!("user uid")); put(&mut s.user, b"uid", &d);
    let (d, euid) = num(k, nm!("sudo euid")); put(&mut s.user, b"euid", &d);
    let (d, gid) = num(k, nm!("user gid")); put(&mut s.user, b"gid", &d);
    let (d, groups) = nums(n(a, 1), k, nm!("user groups")); put(&mut s.user, b"groups", &d);
    let (d, ruid) = num(k, nm!("runas_uid")); put(&mut s.cmd, b"runas_uid", &d);
    let (d, rgid) = num(k, nm!("runas_gid")); put(&mut s.cmd, b"runas_gid", &d);
    let (mut reuid, mut regid) = (ruid, rgid);
    if n(a, 5) == 1 {
        let (d, v) = num(k, nm!("runas_euid")); put(&mut s.cmd, b"runas_euid", &d); reuid = v;
        let (d, v) = num(k, nm!("runas_egid")); put(&mut s.cmd, b"runas_egid", &d); regid = v;
    }
    let mut target: Vec<u32>;
    if n(a, 2) > 0 { let (d, v) = nums(n(a, 2), k, nm!("runas_groups")); put(&mut s.cmd, b"runas_groups", &d); target = v; }
    else { del(&mut s.cmd, b"runas_groups"); put(&mut s.cmd, b"preserve_groups", b"true"); target = groups.clone(); }
    target.push(regid);
    let enforced = if n(a, 3) > 0 { let (d, v) = nums(n(a, 3), k, nm!("gids_enforced")); put(&mut s.opts, b"gids_enforced", &d); v } else { vec![0] };
    let exempted = if n(a, 4) > 0 { let (d, v) = nums(n(a, 4), k, nm!("gids_exempted")); put(&mut s.opts, b"gids_exempted", &d); v } else { vec![] };
    let (t, o, e) = (sym::bool(nm!("iolog_ttyout")), sym::bool(nm!("iolog_stdout")), sym::bool(nm!("iolog_stderr")));
    let (t, o, e) = (fork_bool(t), fork_bool(o), fork_bool(e));
    put(&mut s.cmd, b"iolog_ttyout", flag(t)); put(&mut s.cmd, b"iolog_stdout", flag(o)); put(&mut s.cmd, b"iolog_stderr", flag(e));
    let c = sym::u8(nm!("command byte")); sym::assume(c.is_ascii_lowercase());
    put(&mut s.cmd, b"command", &[b'/', c]);
    let group = n(a, 6);
    if group > 0 {
        // sudo -g NAME or -g '#GID', with a user named too or not
        let g = sym::u8(nm!("group name byte")); let h = sym::u8(nm!("another group name byte"));
        if group == 1 { sym::assume((g != 0) & (g < 0x80) & (h != 0) & (h < 0x80)); } else { sym::assume((g >= 0x80) & (h >= 0x80)); }
        put(&mut s.settings, b"runas_group", &match sym::fork(5, nm!("kind of group name")) { 0 => vec![b'g', g], 1 => vec![g, h], 2 => vec![b'#', g], 3 => vec![g], _ => vec![] });
        if fork_bool(sym::bool(nm!("user named"))) { put(&mut s.settings, b"runas_user", b"u"); }
    }
    unsafe {
        EXEMPT = (uid == euid) | ((uid == reuid) & (gid == regid)) | (c == b'a') | !(t | o | e) | meet(&exempted, &groups) | !meet(&enforced, &target);
        BOTH = (group > 0) & (uid != reuid);
    }
    w().early = Some(socket_wanted);
    let r = Plugin::pair().open(&s);
    // no socket was asked for
    if r == OPEN_OK {
        check!(unsafe { EXEMPT }, "a session that needs a pair went ahead without one");
        check!(w().printed.n == 0 && w().stdio.n == 0 && w().tty.n == 0, "an exempt session printed a prompt");
        cover!("exempt");
    } else {
        // uid and explicit group unchanged: sudo has no such request for a non-exempt session
        check!(r == OPEN_DENY, "a session refused before pairing was not denied");
        check!(unsafe { !EXEMPT }, "an exempt session was refused");
        check!(unsafe { BOTH } | ((group == 0) & (uid == reuid)), "a session was refused without asking a pair");
        if unsafe { BOTH } { check!(w().perr > 0, "the user was not told why"); cover!("user and group"); }
    }
}

// ------------------------------------------------------------- bystanders
static mut ASKED: bool = false;
fn bystander_asked() { unsafe { ASKED = true; } cover!("pairing required"); sym::stop() }
const BYSTANDERS: [&[(&[u8], bool)]; 4] = [
    &[(b"plugin_dir", true), (b"plugin_path", true), (b"progname", true), (b"bsdauth_type", true), (b"closefrom", true), (b"debug_flags", true), (b"debug_level", true), (b"ignore_ticket", true), (b"implied_shell", true), (b"login_class", true), (b"login_shell", true), (b"max_groups", true), (b"network_addrs", true), (b"noninteractive", true), (b"preserve_environment", true), (b"preserve_groups", true), (b"prompt", true), (b"remote_host", true), (b"run_shell", true), (b"runas_user", true), (b"selinux_role", true), (b"selinux_type", true), (b"set_home", true), (b"sudoedit", true), (b"timeout", true)],
    &[(b"cwd", true), (b"egid", false), (b"gid", false), (b"groups", false), (b"host", true), (b"pgid", false), (b"pid", false), (b"ppid", false), (b"user", true), (b"umask", true), (b"cols", true), (b"lines", true), (b"sid", true), (b"tcpgid", true), (b"tty", true)],
    &[(b"umask", true), (b"chroot", true), (b"closefrom", true), (b"cwd", true), (b"exec_background", true), (b"execfd", true), (b"iolog_compress", true), (b"iolog_group", true), (b"iolog_mode", true), (b"iolog_path", true), (b"iolog_stdin", true), (b"iolog_stdout", true), (b"iolog_stderr", true), (b"iolog_ttyin", true), (b"iolog_user", true), (b"login_class", true), (b"nice", true), (b"noexec", true), (b"preserve_fds", true), (b"selinux_role", true), (b"selinux_type", true), (b"set_utmp", true), (b"sudoedit", true), (b"sudoedit_checkdir", true), (b"sudoedit_follow", true), (b"timeout", true), (b"umask_override", true), (b"use_pty", true), (b"utmp_user", true)],
    &[(b"socket_dir", false), (b"user_prompt_path", true), (b"pair_prompt_path", true)],
];
/// No value of a setting that the rules do not mention, no setting nobody
/// knows, no variable, argument or command lets a session go ahead.
/// args: where (0 settings, 1 user, 2 command, 3 options, 4 an unknown entry of one of these,
/// 5 environment, 6 an argument, 7 the command, 8 the approval command), longest value, least length
pub fn bystander(a: &[&'static str]) {
    base_world(b"");
    let mut s = Sess::base();
    let some = |what: &'static str, least: usize, most: usize| -> Vec<u8> { let mut v = vec![0u8; least + sym::fork((most - least + 1) as u32, what) as usize]; sym::bytes(&mut v, what); let mut ok = true; for c in &v { ok = ok & (*c != 0) & (*c < 0x80); } sym::assume(ok); v };
    let (most, least) = (n(a, 1), n(a, 2));
    let mut strict = true;
    match n(a, 0) {
        i @ 0..=3 => { let t = BYSTANDERS[i]; let (k, st) = t[sym::fork(t.len() as u32, nm!("setting")) as usize]; let v = some(nm!("value"), least, most); put(match i { 0 => &mut s.settings, 1 => &mut s.user, 2 => &mut s.cmd, _ => &mut s.opts }, k, &v); strict = st; }
        4 => {
            let k = some(nm!("key"), least, most); let v: &[u8] = [&b"true"[..], b"0", b"1", b"yes"][sym::fork(4, nm!("value")) as usize];
            for c in &k { sym::assume(*c != b'='); }
            let i = sym::fork(4, nm!("list")) as usize;
            let known: &[&[u8]] = match i { 0 => &[b"runas_group"], 1 => &[b"uid", b"euid"], 2 => &[b"command", b"runas_uid", b"runas_gid", b"runas_euid", b"runas_egid", b"runas_groups", b"preserve_groups", b"iolog_ttyout"], _ => &[b"gids_enforced", b"gids_exempted", b"binary_path", b"socket_dir"] };
            let mut ok = true; for x in known { ok = ok & !same(&k, x); } for x in BYSTANDERS[i] { ok = ok & !same(&k, x.0); } sym::assume(ok);
            put(match i { 0 => &mut s.settings, 1 => &mut s.user, 2 => &mut s.cmd, _ => &mut s.opts }, &k, v);
        }
        5 => { let mut v = some(nm!("variable"), least, most); v.extend_from_slice([&b""[..], b"=", b"=1"][sym::fork(3, nm!("value")) as usize]); s.env.push(v); }
        6 => { let v = some(nm!("argument"), least, most); match sym::fork(3, nm!("which argument")) { 0 => s.argv = vec![v], 1 => s.argv.push(v), _ => { s.argv.push(b"-x".to_vec()); s.argv.push(v) } } }
        7 => { let v = some(nm!("command"), least.max(1), most); if crate::h_life::parts(&v) == crate::h_life::parts(b"/a") { return; } put(&mut s.cmd, b"command", &v); }
        _ => { let v = some(nm!("approval command"), least, most); if crate::h_life::parts(&v) == crate::h_life::parts(b"/c") { return; } put(&mut s.opts, b"binary_path", &v); }
    }
    w().ready = Some(bystander_asked);
    let r = Plugin::pair().open(&s);
    check!(r != OPEN_OK, "a session that needs a pair went ahead without one");
    check!(!strict, "a session was refused without asking a pair");
    cover!("refused");
}

/// Whether the command is the approval command is a matter of its whole path.
/// args: kind (0 any command, 1 one byte of the approval command differs, 2 one
/// is added, 3 one is left out, 4 another directory), bytes, which binary_path
pub fn approval_path(a: &[&'static str]) {
    base_world(b"");
    let mut s = Sess::base();
    let bin: &[u8] = [&b"/b/a"[..], b"/usr/bin/sudo_approve", b"/usr/local/sbin/approve", b"b/a", b"/\xc3/\xe9"][n(a, 2)];
    if n(a, 2) == 1 { del(&mut s.opts, b"binary_path"); } else { put(&mut s.opts, b"binary_path", bin); }
    let k = n(a, 1);
    let mut x = vec![0u8; k]; sym::bytes(&mut x, nm!("command"));
    let mut ok = true; for b in &x { ok = ok & (*b != 0); } sym::assume(ok);
    let mut c = bin.to_vec();
    match n(a, 0) {
        0 => c = x.clone(),
        1 => { let i = sym::fork(bin.len() as u32, nm!("where")) as usize; c[i] = x[0]; }
        2 => { let i = sym::fork(bin.len() as u32 + 1, nm!("where")) as usize; for (j, b) in x.iter().enumerate() { c.insert(i + j, *b); } }
        3 => { let i = sym::fork(bin.len() as u32, nm!("where")) as usize; c.remove(i); if k > 0 { c.push(x[0]); } }
        _ => { let i = bin.iter().rposition(|b| *b == b'/').unwrap(); c = x.clone(); c.extend_from_slice(&bin[i..]); }
    }
    put(&mut s.cmd, b"command", &c);
    // an empty command is sudo -V
    if c.is_empty() { return; }
    unsafe { EXEMPT = crate::h_life::parts(&c) == crate::h_life::parts(bin); BOTH = false; }
    w().early = Some(socket_wanted);
    let r = Plugin::pair().open(&s);
    if unsafe { EXEMPT } { check!(r == OPEN_OK, "an exempt session was refused"); cover!("exempt"); }
    else { check!(r != OPEN_OK, "a session that needs a pair went ahead without one"); }
}

// ----------------------------------------------------------------- approval
/// Approval is the first byte the pair sends and nothing else.
/// args: reply bytes, faults (0,1,2), Ctrl-C?
pub fn approve(a: &[&'static str]) {
    let k = n(a, 0);
    base_world(b"");
    let mut r = vec![0u8; k]; sym::bytes(&mut r, nm!("what the pair sends"));
    let w = w();
    w.nreply = k; for i in 0..k { w.reply[i] = r[i]; }
    w.peer_connects = sym::fork(2, nm!("does a pair connect")) == 1;
    w.chunk = [0usize, 1, 7][sym::fork(3, nm!("short writes")) as usize];
    if n(a, 1) > 0 { any_fault(n(a, 1) > 1); }
    if n(a, 2) > 0 { w.sigint_at = sym::u8(nm!("Ctrl-C at blocking call")); sym::assume(w.sigint_at < 12); }
    let x = Plugin::pair().open(&Sess::base());
    let yes = k > 0 && (r[0] == b'y') | (r[0] == b'Y');
    if x == OPEN_OK {
        check!(yes, "a session went ahead although the pair did not answer y");
        check!(w.accepts == 1 && w.rpos >= 1, "a session went ahead before the pair answered");
        check!(w.sigint_hit != Op::Recv && w.sigint_hit != Op::Select, "a session went ahead after Ctrl-C");
        cover!("approved");
    } else {
        check!(x == OPEN_DENY, "a refused session did not end in a denial");
        check!(!w.shut || w.open_fds() == 0, "the connection of a refused session stays open");
        check!(w.open_fds() == 0, "descriptors of a refused session stay open");
        if w.faulted == Op::None && w.faulted2 == Op::None && w.sigint_hit == Op::None { check!(!yes, "a session was refused although the pair answered y"); cover!("declined"); }
    }
}

// ------------------------------------------------------- the socket's rights
static mut WANT_UID: u32 = 0;
static mut WANT_GID: u32 = 0;
static mut BY_GROUP: bool = false;
fn rights() {
    let w = w();
    let nd = w.nodes[w.pair_sock];
    cover!("waiting for the pair");
    check!(nd.alive, "the socket is gone while the plugin waits");
    if unsafe { BY_GROUP } {
        check!(nd.gid == unsafe { WANT_GID }, "the socket does not belong to the target group");
        check!(nd.uid == w.euid, "the socket of a group session is not owned by root");
        check!(nd.mode & 0o222 == 0o020, "the socket of a group session is not writable by exactly that group");
    } else {
        check!(nd.uid == unsafe { WANT_UID }, "the socket is not owned by the target user");
        check!(nd.mode & 0o222 == 0o200, "the socket is not writable by exactly its owner");
    }
}
/// Who can connect to the socket.  args: digits, explicit group?, effective ids?, faults
pub fn socket_rights(a: &[&'static str]) {
    let k = n(a, 0);
    base_world(b"y");
    let w = w();
    let mut s = Sess::base();
    w.umask = sym::u16(nm!("umask")) as u32; sym::assume(w.umask < 512);
    w.egid = sym::u8(nm!("sudo egid")) as u32;
    let (d, uid) = num(k, nm!("user uid")); put(&mut s.user, b"uid", &d);
    let (d, gid) = num(k, nm!("user gid")); put(&mut s.user, b"gid", &d);
    let (d, mut reuid) = num(k, nm!("runas_uid")); put(&mut s.cmd, b"runas_uid", &d);
    let (d, mut regid) = num(k, nm!("runas_gid")); put(&mut s.cmd, b"runas_gid", &d);
    if n(a, 2) == 1 {
        let (d, v) = num(k, nm!("runas_euid")); put(&mut s.cmd, b"runas_euid", &d); reuid = v;
        let (d, v) = num(k, nm!("runas_egid")); put(&mut s.cmd, b"runas_egid", &d); regid = v;
    }
    let group = n(a, 1) == 1;
    if group { let name = [&b"g"[..], b"#0", b"", b"\xff"][sym::fork(4, nm!("group name")) as usize]; put(&mut s.settings, b"runas_group", name); sym::assume(uid == reuid); }
    else { sym::assume(uid != reuid); }
    sym::assume((uid != 0) & ((uid != reuid) | (gid != regid)));
    // nobody has the id -1: to chown it means "leave as it is"
    sym::assume((reuid != u32::MAX) & (regid != u32::MAX));
    unsafe { WANT_UID = reuid; WANT_GID = regid; BY_GROUP = group; }
    w.watch = true; w.allow_uid = reuid; w.allow_gid = regid; w.allow_by_gid = group;
    w.ready = Some(rights);
    if n(a, 3) > 0 { any_fault(n(a, 3) > 1); }
    let r = Plugin::pair().open(&s);
    check!(!w.wide, "at some moment someone else could have connected to the socket");
    if n(a, 3) == 0 { check!(r == OPEN_OK, "a session the pair approved was refused"); }
    if w.binds > 0 { cover!("bound"); }
}

// ------------------------------------------------------ the socket directory
/// Any owner, mode, kind of the socket directory, any effective and real uid.
/// args: faults, which directory (0 /s, 1 by default, 2 that, given, 3 with a
/// slash at the end, 4 deeper, 5 relative, 6 a link's name, 7 long)
pub fn sockdir(a: &[&'static str]) {
    base_world(b"y");
    let w = w();
    let mut s = Sess::base();
    let long = [b'd'; 60];
    let d: &'static [u8] = match n(a, 1) { 0 => b"/s", 1 | 2 | 3 => b"/var/run/sudo_pair", 4 => b"/x/sudo_pair/tmp", 5 => b"run/p", 6 => b"/run/sudo_pair", _ => Vec::leak([&b"/"[..], &long, b"/s"].concat()) };
    w.nodes[0].path = d;
    match n(a, 1) { 0 => {} 1 => del(&mut s.opts, b"socket_dir"), 3 => put(&mut s.opts, b"socket_dir", b"/var/run/sudo_pair/"), _ => put(&mut s.opts, b"socket_dir", d) }
    let euid = sym::u32(nm!("effective uid")); w.euid = euid;
    w.uid = sym::u32(nm!("real uid"));
    let kind = sym::fork(5, nm!("kind of the socket directory")) as u8;
    let owner = sym::u32(nm!("owner of the socket directory"));
    let mode = sym::u16(nm!("mode of the socket directory")) as u32; sym::assume(mode < 0o10000);
    if kind == 0 { w.nodes[0].alive = false; } else { w.nodes[0].kind = kind; w.nodes[0].uid = owner; w.nodes[0].mode = mode; }
    let safe = (kind == world::DIR) & (owner == euid) & (mode & 0o022 == 0);
    if n(a, 0) > 0 { any_fault(false); }
    w.ready = Some(dir_ready);
    let r = Plugin::pair().open(&s);
    if r == OPEN_OK { check!(safe, "a session went ahead over a socket directory that others can change"); cover!("safe directory"); }
    else { check!(r == OPEN_DENY, "a refused session did not end in a denial"); }
    check!(safe || w.binds == 0, "a socket was created in a directory that others can change");
    if !safe { cover!("unsafe directory"); }
    if n(a, 0) == 0 { check!(!safe || r == OPEN_OK, "a safe socket directory was refused"); }
}
fn dir_ready() { cover!("waiting") }

/// What is at the socket's path already.  args: faults
pub fn occupied(a: &[&'static str]) {
    base_world(b"y");
    let w = w();
    let s = Sess::base();
    // directory, socket, file, terminal, pipe, device; links to nothing, to a file, to a socket, to a directory
    let what = sym::fork(10, nm!("what is at the path"));
    let kind = [world::DIR, world::SOCK, world::FILE, world::TTY, world::FIFO, world::BLK, world::LINK, world::LINK, world::LINK, world::LINK][what as usize];
    let data: &'static [u8] = match what { 6 => b"/nothing", 7 => b"/f", 8 => b"/k", 9 => b"/d", _ => if sym::fork(2, nm!("is it empty")) == 1 { b"" } else { b"data" } };
    let i = w.add(kind, b"/s/7.5.sock", sym::u8(nm!("its owner")) as u32, 0, (sym::u16(nm!("its mode")) & 0o7777) as u32, data);
    let others = [w.add(world::FILE, b"/f", 0, 0, 0o600, b"x"), w.add(world::SOCK, b"/k", 0, 0, 0o600, b""), w.add(world::DIR, b"/d", 0, 0, 0o700, b""), w.add(world::SOCK, b"/s/7.6.sock", 0, 0, 0o600, b""), w.add(world::SOCK, b"/s/8.5.sock", 0, 0, 0o600, b"")];
    if n(a, 0) > 0 { any_fault(n(a, 0) > 1); }
    let r = Plugin::pair().open(&s);
    check!(!w.bad_unlink, "something that is not a socket was deleted");
    for o in others { check!(w.nodes[o].alive, "something elsewhere was deleted"); }
    if kind == world::SOCK {
        if n(a, 0) == 0 { check!(r == OPEN_OK, "a stale socket keeps a session from being approved"); }
        if r == OPEN_OK { check!(!w.nodes[i].alive && w.binds == 1, "the stale socket was not replaced"); cover!("stale socket replaced"); }
    } else {
        check!(w.nodes[i].alive, "something that is not a socket was deleted");
        if w.faulted == Op::None { check!(r == OPEN_DENY, "a session went ahead although its socket path was taken"); cover!("path taken"); }
    }
    if kind == world::LINK { cover!("a link"); }
}

// ------------------------------------------------------------------- cleanup
fn mask_of(sa: &mut libc::sigaction, m: u64) { unsafe { *(core::ptr::addr_of_mut!(sa.sa_mask) as *mut u64) = m } }
fn first_word(sa: &libc::sigaction) -> u64 { unsafe { *(core::ptr::addr_of!(sa.sa_mask) as *const u64) } }
/// Whatever happens, nothing is left behind.  args: faults, Ctrl-C, reply bytes
pub fn cleanup(a: &[&'static str]) {
    let k = n(a, 2);
    base_world(b"");
    let w = w();
    let mut r = vec![0u8; k]; sym::bytes(&mut r, nm!("what the pair sends"));
    w.nreply = k; for i in 0..k { w.reply[i] = r[i]; }
    let umask = sym::u16(nm!("umask")) as u32; sym::assume(umask < 512); w.umask = umask;
    let sa = sym::u32(nm!("SIGINT flags")) as i32; w.sa.sa_flags = sa;
    let h = sym::u64(nm!("SIGINT handler")) as usize; w.sa.sa_sigaction = h;
    let mask = sym::u64(nm!("signals blocked by the handler")); mask_of(&mut w.sa, mask);
    w.peer_gone = sym::fork(2, nm!("pair hangs up before the prompt")) == 1;
    if n(a, 0) > 0 { any_fault(n(a, 0) > 1); }
    if n(a, 1) > 0 { sym::assume(h > 1); w.sigint_at = sym::u8(nm!("Ctrl-C at blocking call")); sym::assume(w.sigint_at < 12); }
    let p = Plugin::pair();
    let x = p.open(&Sess::base());
    check!(w.umask == umask, "the umask was not restored");
    if !failed(Op::Sigaction) { check!((w.sa.sa_flags == sa) & (w.sa.sa_sigaction == h) & (first_word(&w.sa) == mask), "the SIGINT disposition was not restored"); }
    if !failed(Op::Unlink) && !failed(Op::Stat) { check!(w.live_socks() == 0, "the socket was left in the file system"); }
    if x == OPEN_OK { check!(w.open_fds() == 1, "the listening socket was left open"); cover!("approved"); }
    else { check!(w.open_fds() == 0, "a refused session leaves descriptors open"); cover!("refused"); }
    p.close(0, 0);
    check!(w.open_fds() == 0, "descriptors are open after close");
    check!(w.umask == umask, "the umask was not restored by close");
}

// -------------------------------------------------------------- socket path
static mut PATH: Vec<u8> = Vec::new();
fn path_ready() { let w = w(); let nd = w.nodes[w.pair_sock]; cover!("bound"); check!(same(nd.path, unsafe { &PATH }), "the socket is not at DIR/UID.PID.sock"); }
/// args: uid digits, pid digits, which socket_dir (0 default, 1 symbolic, 2 with a trailing slash)
pub fn sockpath(a: &[&'static str]) {
    base_world(b"y");
    let w = w();
    let mut s = Sess::base();
    let (u, uid) = num(n(a, 0), nm!("uid")); put(&mut s.user, b"uid", &u);
    let (p, _) = num(n(a, 1), nm!("pid")); put(&mut s.user, b"pid", &p);
    sym::assume(uid != 0);
    let c = sym::u8(nm!("directory byte")); sym::assume((c != 0) & (c != b'/') & (c != b'.'));
    let dir: Vec<u8> = match n(a, 2) { 0 => { del(&mut s.opts, b"socket_dir"); b"/var/run/sudo_pair".to_vec() }
        3 => { let k = 2 + sym::fork(119, nm!("length of the directory")) as usize; let mut d: Vec<u8> = (0..k).map(|i| if i % 13 == 0 && i + 1 < k { b'/' } else { b'a' + (i % 26) as u8 }).collect(); d[1] = c; if k > 2 { d[k - 1] = c; } d }
        _ => vec![b'/', c, b'r'] };
    w.nodes[0].path = Vec::leak(dir.clone());
    if n(a, 2) & 1 == 1 { put(&mut s.opts, b"socket_dir", &dir); }
    if n(a, 2) == 2 { let mut d = dir.clone(); d.push(b'/'); put(&mut s.opts, b"socket_dir", &d); }
    let mut e = dir; e.push(b'/'); e.extend_from_slice(&dec(&u)); e.push(b'.'); e.extend_from_slice(&dec(&p)); e.extend_from_slice(b".sock");
    // an address has room for 107 bytes
    let fits = e.len() < 108;
    unsafe { PATH = e; }
    w.ready = Some(path_ready);
    let r = Plugin::pair().open(&s);
    check!((r == OPEN_OK) == fits, "the session was refused");
    if !fits { check!(r == OPEN_DENY && w.binds == 0, "a socket was made elsewhere"); cover!("too long"); }
}

// ----------------------------------------------------------------- defaults
static mut DIR: &[u8] = b"";
static mut TEXT: Vec<u8> = Vec::new();
fn defaults_ready() {
    let w = w(); let nd = w.nodes[w.pair_sock];
    check!(nd.path.len() > unsafe { DIR }.len() && same(&nd.path[..unsafe { DIR }.len()], unsafe { DIR }), "the socket is not in the directory that applies");
    check!(w.printed.is(unsafe { &TEXT }), "the user is not shown the template that applies");
    cover!("paired");
}
/// Options that are not given have their documented defaults, each on its own.
/// args: 0: none or one option is given; 1: sudo passes no list of options at all; 2: any subset of the options is given; order (0, 1 reversed)
pub fn defaults(a: &[&'static str]) {
    base_world(b"y");
    let w = w();
    let mut s = Sess::base();
    s.opts = vec![];
    w.nodes[0].path = b"/var/run/sudo_pair";
    w.add(world::DIR, b"/s2", 0, 0, 0o700, b"");
    w.add(world::FILE, b"/etc/sudo_pair.prompt.user", 0, 0, 0o600, b"U%b\n"); w.add(world::FILE, b"/tu", 0, 0, 0o600, b"V%b\n");
    w.add(world::FILE, b"/etc/sudo_pair.prompt.pair", 0, 0, 0o600, b"P%B"); w.add(world::FILE, b"/tp", 0, 0, 0o600, b"Q%B");
    let mut opts: [(&[u8], &[u8]); 7] = [(b"unknown", b"1"), (b"binary_path", b"/x/zz"), (b"user_prompt_path", b"/tu"), (b"pair_prompt_path", b"/tp"), (b"socket_dir", b"/s2"), (b"gids_enforced", b"5"), (b"gids_exempted", b"3")];
    let mut given = [false; 7];
    match n(a, 0) {
        1 => { s.opts_null = true; given[0] = sym::fork(2, nm!("an unknown option is given")) == 1; }
        3 | 4 => {}
        2 => { let m = sym::fork(128, nm!("options given")); for i in 0..7 { given[i] = m >> i & 1 == 1; } }
        _ => { let k = sym::fork(8, nm!("option given")) as usize; if k < 7 { given[k] = true; given[0] = k == 0 || sym::fork(2, nm!("an unknown option is given")) == 1; } }
    }
    // the user is in group 3, but not in group 8
    let in_it = given[6] && sym::fork(2, nm!("the user is in the exempted group")) == 1; if !in_it { opts[6].1 = b"8"; }
    // any other name, with a value that would matter
    if n(a, 0) == 4 {
        opts[6].1 = b"3";
        let mut k = vec![0u8; sym::fork(25, nm!("length of the name")) as usize]; sym::bytes(&mut k, nm!("name"));
        let mut ok = true; for c in &k { ok = ok & (*c != 0) & (*c != b'='); } for x in &opts[1..] { if x.0.len() == k.len() { ok = ok & !same(&k, x.0); } } sym::assume(ok);
        put(&mut s.opts, &k, opts[1 + sym::fork(6, nm!("value")) as usize].1);
    }
    // options whose names are nearly one of the known ones are unknown as well
    if n(a, 0) == 3 {
        opts[6].1 = b"3";
        let (key, value) = opts[1 + sym::fork(6, nm!("option")) as usize];
        let mut k = key.to_vec();
        let how = sym::fork(5, nm!("how the name differs"));
        let at = sym::fork(key.len() as u32 - 1, nm!("where")) as usize + 1;
        let c = sym::u8(nm!("byte of the name")); sym::assume((c != 0) & (c != b'='));
        match how { 0 => { let at = at - 1; sym::assume(c != k[at]); k[at] = c; } 1 => k.insert(at, c), 2 => { k.remove(at); } 3 => k.truncate(at), _ => k = k.split_off(at) }
        sym::assume(!same(&k, key));
        put(&mut s.opts, &k, value);
    }
    for j in 0..7 { let i = if n(a, 1) == 1 { 6 - j } else { j }; if given[i] { put(&mut s.opts, opts[i].0, opts[i].1); } }
    let (d, g) = num(1, nm!("target gid")); put(&mut s.cmd, b"runas_gid", &d); put(&mut s.cmd, b"runas_groups", &d);
    let approve = sym::fork(3, nm!("command"));
    match approve { 1 => put(&mut s.cmd, b"command", b"/usr/bin/sudo_approve"), 2 => put(&mut s.cmd, b"command", b"/x/zz"), _ => {} }
    let bin: &[u8] = if given[1] { b"/x/zz" } else { b"/usr/bin/sudo_approve" };
    let exempt = fork_bool(if given[5] { g != 5 } else { g != 0 }) || in_it || (approve == 1 && !given[1]) || (approve == 2 && given[1]);
    unsafe {
        DIR = if given[4] { b"/s2/" } else { b"/var/run/sudo_pair/" };
        TEXT = if given[2] { b"V".to_vec() } else { b"U".to_vec() }; TEXT.extend_from_slice(if given[1] { b"zz\n" } else { b"sudo_approve\n" });
    }
    w.ready = Some(defaults_ready);
    let r = Plugin::pair().open(&s);
    check!(r == OPEN_OK, "the session was refused");
    if exempt { check!(w.binds == 0 && w.printed.n == 0, "a session that the rules exempt was made to wait for a pair"); cover!("exempt"); }
    else {
        check!(w.accepts == 1, "a session that needs a pair went ahead without one");
        let mut e = if given[3] { b"Q".to_vec() } else { b"P".to_vec() }; e.extend_from_slice(bin); e.extend_from_slice(b"y\n");
        check!(w.sent.is(&e), "the pair is not shown the template that applies");
    }
}

// ---------------------------------------------------------------- mirroring
fn opened() -> Plugin { let p = Plugin::pair(); let r = p.open(&Sess::base()); if r != OPEN_OK { sym::limit(nm!("the base session was refused")) } p }
/// What the pair has seen once a base session is approved.
const PROMPT: &[u8] = b"u@h:/$ sudo c\ny/n? [n]: y\n";
/// Everything the session prints reaches the pair, unchanged and in order.
/// args: calls, bytes per call, mode (0 whole writes, 1 short writes, 2 a write fails, 3 Ctrl-C)
pub fn mirror(a: &[&'static str]) {
    base_world(b"y");
    let w = w();
    let mut s = Sess::base();
    put(&mut s.cmd, b"iolog_stdout", b"true"); put(&mut s.cmd, b"iolog_stderr", b"true");
    let p = Plugin::pair();
    if p.open(&s) != OPEN_OK { sym::limit(nm!("the base session was refused")) }
    check!(w.sent.is(PROMPT), "the pair's view does not start with the prompt and the echo of the answer");
    w.sent.clear(); w.sends = 0;
    match n(a, 2) {
        1 => w.chunk = 1 + sym::fork(2, nm!("bytes per write")) as usize,
        2 => { w.send_fail_at = 1 + sym::fork(n(a, 0) as u32 + 1, nm!("failing write")); let e = sym::u8(nm!("error of the write")) as i32; sym::assume((e < 134) & (e != libc::EINTR)); w.send_err = if sym::fork(2, nm!("nothing is written")) == 1 { 0 } else { sym::assume(e != 0); e }; }
        3 => { w.blocking = 0; w.sigint_at = 1 + sym::fork(n(a, 0) as u32 + 1, nm!("Ctrl-C during write")) as u8; }
        _ => {}
    }
    let mut want = vec![]; let mut dead = false;
    for i in 0..n(a, 0) {
        let ch = [TTYOUT, STDOUT, STDERR][sym::fork(3, nm!("channel")) as usize];
        let mut b = vec![0u8; if n(a, 1) > 0 { n(a, 1) } else { i + 1 }]; sym::bytes(&mut b, nm!("output"));
        let r = p.log(ch, &b);
        let n0 = want.len();
        if r == LOG_OK {
            check!(!dead, "output went on unseen after the pair was gone");
            want.extend_from_slice(&b);
            check!(w.sent.is(&want), "the pair did not see the output exactly as printed");
            cover!("mirrored");
        } else {
            check!(r == LOG_DENY, "lost output did not end the session");
            check!(w.send_fail_at != 0 && w.sends >= w.send_fail_at || w.sigint_hit == Op::Send, "output was refused although the pair could see it");
            check!(w.sent.n <= n0 + b.len(), "more was sent than printed");
            if w.send_fail_at != 0 { dead = true; cover!("pair gone"); } else { sym::stop() }
        }
    }
    check!(!w.hung, "Ctrl-C is ignored while output is sent");
}
pub const SIZES: &[usize] = &[0, 1, 15, 16, 17, 63, 64, 65, 79, 80, 81, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 70000];
/// Output in bulk.  args: calls, sizes (0: any of SIZES for each call; else
/// that many bytes), window size changes in between?
pub fn torrent(a: &[&'static str]) {
    base_world(b"y");
    let w = w();
    let mut s = Sess::base();
    put(&mut s.cmd, b"iolog_stdout", b"true"); put(&mut s.cmd, b"iolog_stderr", b"true");
    let p = Plugin::pair();
    if p.open(&s) != OPEN_OK { sym::limit(nm!("the base session was refused")) }
    w.sent.clear(); w.sends = 0;
    w.chunk = [0, 1000, 4096, 65535][sym::fork(4, nm!("bytes per write")) as usize];
    let mut want = vec![];
    for i in 0..n(a, 0) {
        let k = if n(a, 1) > 0 { n(a, 1) } else { SIZES[sym::fork(SIZES.len() as u32, nm!("size")) as usize] };
        let ch = [TTYOUT, STDOUT, STDERR][if n(a, 0) > 3 { i % 3 } else { sym::fork(3, nm!("channel")) as usize }];
        let mut b: Vec<u8> = (0..k).map(|j| (j * 7 + j / 251 + i) as u8).collect();
        // any bytes at either end and around the places where blocks end
        let mut at = 0;
        for e in [0usize, 128, 256, 1024, 4096, 8192, 65536, k] { let (lo, hi) = (e.saturating_sub(2).max(at), (e + 2).min(k)); if lo < hi && (i < 40 || i + 50 > n(a, 0)) { sym::bytes(&mut b[lo..hi], nm!("output")); at = hi; } }
        let r = p.log(ch, &b);
        check!(r == LOG_OK, "output was refused although the pair could see it");
        want.extend_from_slice(&b);
        check!(w.sent.is(&want), "the pair did not see the output exactly as printed");
        if n(a, 2) == 1 { let r = p.winsize(24, 80 + i as u32); check!(r == LOG_OK, "a window size change was refused"); want.extend_from_slice(format!("\x1b[8;24;{}t", 80 + i).as_bytes()); check!(w.sent.is(&want), "output and window size changes are out of order"); }
    }
    cover!("mirrored");
}
/// Window size changes.  args: digits bound of lines, of columns (11-15:
/// close to 2^8, 2^15, 2^16, 2^31, 2^32 instead)
pub fn winsize(a: &[&'static str]) {
    base_world(b"y");
    let w = w();
    let p = opened();
    w.sent.clear();
    let lim = |k: usize| -> (u32, u32) {
        if k > 10 { let m = [255u32, 32767, 65535, 0x7fff_ffff, u32::MAX][k - 11]; return (m - 9, if m == u32::MAX { m } else { m + 9 }); }
        let mut x = 1u64; for _ in 0..k { x *= 10; } (0, (x - 1).min(u32::MAX as u64) as u32)
    };
    let l = sym::u32(nm!("lines")); let c = sym::u32(nm!("columns"));
    let ((l0, l1), (c0, c1)) = (lim(n(a, 0)), lim(n(a, 1)));
    sym::assume((l >= l0) & (l <= l1) & (c >= c0) & (c <= c1));
    let r = p.winsize(l, c);
    check!(r == LOG_OK, "a window size change was refused");
    let b = w.sent.get();
    // ESC [ 8 ; lines ; cols t
    let mut i = 4;
    check!(b.len() >= 8 && same(&b[..4], b"\x1b[8;"), "the escape sequence does not start right");
    let mut v = 0u64; let mut k = 0; let mut ok = true;
    while i < b.len() && b[i] != b';' { ok = ok & (b[i] >= b'0') & (b[i] <= b'9'); v = v * 10 + (b[i] - b'0') as u64; i += 1; k += 1; }
    check!(ok & (k > 0) & (v == l as u64), "the lines in the escape sequence are wrong");
    i += 1; v = 0; k = 0; ok = true;
    while i < b.len() && b[i] != b't' { ok = ok & (b[i] >= b'0') & (b[i] <= b'9'); v = v * 10 + (b[i] - b'0') as u64; i += 1; k += 1; }
    check!(ok & (k > 0) & (v == c as u64), "the columns in the escape sequence are wrong");
    check!(i + 1 == b.len(), "the escape sequence does not end right");
    cover!("sent");
}

// -------------------------------------------------------------------- stdin
/// args: bytes, exempt by (0 nothing, 1 exempted group, 2 root, 3 approval command, 4 unenforced group)
pub fn stdin(a: &[&'static str]) {
    base_world(b"y");
    let w = w();
    let mut s = Sess::base();
    let e = n(a, 1);
    match e { 1 => put(&mut s.opts, b"gids_exempted", b"3"), 2 => put(&mut s.user, b"uid", b"0"), 3 => put(&mut s.cmd, b"command", b"/a"), 4 => put(&mut s.opts, b"gids_enforced", b"9"), _ => {} }
    match sym::fork(3, nm!("iolog_stdin hint")) { 0 => {} 1 => put(&mut s.cmd, b"iolog_stdin", b"false"), _ => put(&mut s.cmd, b"iolog_stdin", b"true") }
    match sym::fork(3, nm!("output hints")) { 0 => {} 1 => { put(&mut s.cmd, b"iolog_ttyout", b"false"); put(&mut s.cmd, b"iolog_stdout", b"true"); } _ => { put(&mut s.cmd, b"iolog_stderr", b"true"); } }
    let p = Plugin::pair();
    if p.open(&s) != OPEN_OK { sym::limit(nm!("the base session was refused")) }
    w.sent.clear(); let e0 = w.perr;
    let mut b = vec![0u8; n(a, 0)]; sym::bytes(&mut b, nm!("piped input"));
    let r = p.log(STDIN, &b);
    if e > 0 { check!(r == LOG_OK, "an exempt session may not be piped to"); cover!("exempt"); }
    else { check!(r == LOG_DENY, "input was piped to a paired session"); check!(w.perr > e0, "the user was not told why"); cover!("denied"); }
    let t = p.log(TTYIN, &b);
    check!(t == LOG_OK, "terminal input was refused");
    check!(w.sent.n == 0, "input was shown to the pair");
}

// ------------------------------------------------------------------- Ctrl-C
/// Ctrl-C at any point of the wait ends it.  args: initial SA_RESTART (0 clear, 1 set, 2 any)
pub fn ctrlc(_a: &[&'static str]) {
    base_world(b"y");
    let w = w();
    let sa = sym::u32(nm!("SIGINT flags")) as i32; w.sa.sa_flags = sa;
    let h = sym::u64(nm!("SIGINT handler")) as usize; w.sa.sa_sigaction = h;
    let mask = sym::u64(nm!("signals blocked by the handler")); mask_of(&mut w.sa, mask);
    // sudo has a handler of its own in place when it calls plugins
    sym::assume(h > 1);
    w.sigint_at = sym::u8(nm!("Ctrl-C at blocking call")); sym::assume((w.sigint_at > 0) & (w.sigint_at < 12));
    let r = Plugin::pair().open(&Sess::base());
    check!(!w.hung, "Ctrl-C does not end the wait for the pair");
    check!(!w.killed, "Ctrl-C kills sudo instead of ending the wait");
    if w.sigint_hit == Op::Select { check!(r == OPEN_DENY, "Ctrl-C while waiting for a pair did not end the session"); check!(w.accepts == 0, "a pair was let in after Ctrl-C"); cover!("while connecting"); }
    if w.sigint_hit == Op::Recv { check!(r == OPEN_DENY, "Ctrl-C while waiting for the answer did not end the session"); cover!("while answering"); }
    if w.sigint_hit == Op::None { check!(r == OPEN_OK, "the session was refused"); }
    check!((w.sa.sa_flags == sa) & (w.sa.sa_sigaction == h) & (first_word(&w.sa) == mask), "the SIGINT disposition was not restored");
    check!(w.live_socks() == 0, "the socket was left in the file system");
}

// ---------------------------------------------------------------- histories
/// Any legal order of calls sudo can make.  args: number of steps
pub fn history(a: &[&'static str]) {
    base_world(b"");
    let w = w();
    let p = Plugin::pair();
    // 0 closed, 1 paired, 2 exempt, 3 -V, 4 refused
    let mut st = 0;
    let mut sess = 0u8;
    for _ in 0..n(a, 0) {
        match sym::fork(if st == 0 || st == 1 && !w.peer_gone { 5 } else { 4 }, nm!("call")) {
            0 => {
                p.close(0, 0);
                if st == 1 { check!(w.stream_closed > 0, "close left the connection to the pair open"); cover!("closed"); }
                check!(w.open_fds() == 0, "descriptors are open after close");
                st = 0;
            }
            1 if st == 0 => {
                // a new session, answered by one symbolic byte
                sess += 1;
                let b = sym::u8(nm!("answer"));
                w.reply[0] = b; w.nreply = 1; w.rpos = 0; w.peer_gone = false; w.shut = false; w.shut_rd = false; w.shut_wr = false; w.stream_closed = 0; w.sent.clear(); w.accepts = 0;
                let mut s = Sess::base();
                put(&mut s.user, b"user", &[b'a' + sess]);
                let r = p.open(&s);
                let yes = (b == b'y') | (b == b'Y');
                check!((r == OPEN_OK) == yes, "the outcome of a session does not follow its own pair's answer");
                check!(w.accepts == 1, "a session did not ask its own pair");
                check!(w.sent.n > 1 && w.sent.get()[0] == b'a' + sess, "a session showed its pair another session's data");
                st = if r == OPEN_OK { 1 } else { 4 };
                if sess > 1 { cover!("second session"); }
            }
            2 if st == 0 => { let mut s = Sess::base(); put(&mut s.user, b"uid", b"0"); let r = p.open(&s); check!(r == OPEN_OK, "an exempt session was refused"); st = 2; }
            3 if st == 0 => { let mut s = Sess::base(); s.cmd = vec![]; let r = p.open(&s); check!(r == OPEN_OK, "sudo -V was refused"); st = 3; }
            4 if st == 1 => { w.peer_gone = true; cover!("the pair left"); }
            4 => {
                cover!("call before open");
                match sym::fork(4, nm!("call without a session")) {
                    0 => { let r = p.log(TTYOUT, b"x"); check!(r != LOG_OK, "output was accepted without a session"); }
                    1 => { let r = p.winsize(1, 2); check!(r != LOG_OK, "a window size change was accepted without a session"); }
                    2 => { let r = p.log(TTYIN, b"i"); check!(r != LOG_OK, "input was accepted without a session"); }
                    _ => { let r = p.show_version(1); check!(r != OPEN_OK, "a version was shown without open"); }
                }
            }
            1 => {
                let c = sym::u8(nm!("output")); w.sent.clear();
                let ch = [TTYOUT, STDOUT, STDERR][sym::fork(3, nm!("stream")) as usize];
                let r = p.log(ch, &[c]);
                match st {
                    1 if w.peer_gone => check!(r != LOG_OK, "output was accepted after the pair left"),
                    1 => { check!(r == LOG_OK && w.sent.is(&[c]), "output of a paired session was not shown to the pair"); }
                    2 => check!(r == LOG_OK && w.sent.n == 0, "output of an exempt session was refused or sent"),
                    _ => check!(r != LOG_OK && w.sent.n == 0, "output was accepted without a session"),
                }
            }
            2 if st == 3 => { let k = w.printed.n; let r = p.show_version(sym::fork(2, nm!("verbose")) as i32); check!(r == OPEN_OK && w.printed.n > k, "the version could not be shown"); cover!("version"); }
            2 => { w.sent.clear(); let r = p.winsize(1, 2); match st { 1 if w.peer_gone => check!(r != LOG_OK, "a window size change was accepted after the pair left"), 1 => check!(r == LOG_OK && w.sent.is(b"\x1b[8;1;2t"), "a window size change was not shown to the pair"), 2 => check!(r == LOG_OK && w.sent.n == 0, "a window size change of an exempt session was refused or sent"), _ => check!(r != LOG_OK, "a window size change was accepted without a session") } }
            _ => {
                let tty = sym::fork(2, nm!("typed or piped")) == 1; w.sent.clear();
                let r = p.log(if tty { TTYIN } else { STDIN }, b"i");
                match st { 1 => check!(r == if tty { LOG_OK } else { LOG_DENY }, "input was piped to a paired session, or could not be typed"), 2 => check!(r == LOG_OK, "an exempt session may not be piped to"), _ => check!(r != LOG_OK, "input was accepted without a session") }
                check!(w.sent.n == 0, "input was shown to the pair");
            }
        }
    }
    p.close(0, 0);
    check!(w.open_fds() == 0 && w.live_socks() == 0, "something is left after the last close");
}

// ----------------------------------------------------------------------- -V
fn pairing() { cover!("pairing required"); sym::stop() }
/// args: bytes of the command (0: no command)
pub fn version_only(a: &[&'static str]) {
    base_world(b"");
    let w = w();
    let mut s = Sess::base();
    let k = n(a, 0);
    let p = Plugin::pair();
    if k == 0 {
        del(&mut s.cmd, b"command");
        match sym::fork(2, nm!("other command settings present")) { 0 => s.cmd = vec![], _ => {} }
        w.early = Some(asked);
        let r = p.open(&s);
        check!(r == OPEN_OK, "sudo -V was refused");
        check!(w.printed.n == 0 && w.tty.n == 0, "sudo -V printed a prompt");
        let v = p.show_version(sym::fork(2, nm!("verbose")) as i32);
        check!(v == OPEN_OK, "the version could not be shown");
        check!(w.printed.n > 0 && w.perr == 0, "no version was shown");
        cover!("version");
    } else {
        let mut c = vec![0u8; k]; sym::bytes(&mut c, nm!("command"));
        for x in &c { sym::assume(*x != 0); }
        put(&mut s.cmd, b"command", &c);
        put(&mut s.opts, b"binary_path", b"/usr/bin/approve");
        match sym::fork(3, nm!("arguments")) { 0 => s.argv = vec![], 1 => s.argv = vec![b"-V".to_vec()], _ => {} }
        w.early = Some(pairing);
        let r = p.open(&s);
        check!(r != OPEN_OK, "a command ran without a pair, as if it were sudo -V");
    }
}
fn asked() { check!(false, "sudo -V waits for a pair") }
