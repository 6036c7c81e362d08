//! Harnesses for the option parsing of sudo_plugin.
use crate::h_core::{p, plain};
use crate::h_pair::{fork_bool, nums};
use crate::session::*;
use crate::sym;
use crate::world::{same, w};
use std::collections::HashSet;
use std::convert::TryFrom;
use std::path::PathBuf;
use sudo_plugin::options::{CommandInfo, OptionMap, Settings, UserInfo};
use sudo_plugin::prelude::*;

fn map(l: &L) -> OptionMap { unsafe { OptionMap::from_raw(arr(l) as *const *const _) } }
fn nonzero(b: &[u8]) { let mut ok = true; for x in b { ok = ok & (*x != 0); } sym::assume(ok); }

/// The map is exactly what the strings say.  args: entries, bytes per entry, bytes of the key asked for
pub fn optmap(a: &[&'static str]) {
    let mut l: L = vec![];
    for _ in 0..n(a, 0) { let mut e = vec![0u8; n(a, 1)]; sym::bytes(&mut e, nm!("entry")); nonzero(&e); l.push(e); }
    let mut k = vec![0u8; n(a, 2)]; sym::bytes(&mut k, nm!("key"));
    let m = map(&l);
    // reference: the last entry with this key
    let mut want: Option<&[u8]> = None;
    for e in &l {
        let mut s = e.len(); for i in (0..e.len()).rev() { if fork_bool(e[i] == b'=') { s = i; } }
        if s == e.len() { if fork_bool(same(e, &k)) { want = Some(&e[..]); } }
        else if fork_bool(same(&e[..s], &k)) { want = Some(&e[s + 1..]); }
    }
    match (m.get_bytes(&k), want) {
        (None, None) => cover!("absent"),
        (Some(x), Some(y)) => { check!(same(x, y), "a key has another value than the last one given"); cover!("present"); }
        (Some(_), None) => check!(false, "a key that was not given has a value"),
        (None, Some(_)) => check!(false, "a key that was given has no value"),
    }
    let e = unsafe { OptionMap::from_raw(std::ptr::null()) };
    check!(e.get_bytes(&k).is_none(), "no list at all is not an empty one");
}

/// Integers: what a string means as a `bits`-bit number, if anything.
fn integer(b: &[u8], signed: bool, bits: u32) -> Option<i128> {
    if bits <= 32 && b.len() <= 18 { return small(b, signed, bits).map(|x| x as i128); }
    let mut i = 0; let mut neg = false;
    if b.len() > 0 { if fork_bool(b[0] == b'+') { i = 1; } else if signed && fork_bool(b[0] == b'-') { i = 1; neg = true; } }
    if i == b.len() { return None; }
    let mut v: i128 = 0; let mut ok = true;
    for x in &b[i..] { ok = ok & (*x >= b'0') & (*x <= b'9'); v = v * 10 + (x.wrapping_sub(b'0') as i128); }
    if neg { v = -v; }
    let (lo, hi) = if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) };
    if fork_bool(ok) && fork_bool((v >= lo) & (v <= hi)) { Some(v) } else { None }
}
fn small(b: &[u8], signed: bool, bits: u32) -> Option<i64> {
    let mut i = 0; let mut neg = false;
    if b.len() > 0 { if fork_bool(b[0] == b'+') { i = 1; } else if signed && fork_bool(b[0] == b'-') { i = 1; neg = true; } }
    if i == b.len() { return None; }
    let mut v: i64 = 0; let mut ok = true;
    for x in &b[i..] { ok = ok & (*x >= b'0') & (*x <= b'9'); v = v * 10 + (x.wrapping_sub(b'0') as i64); }
    if neg { v = -v; }
    let (lo, hi) = if signed { (-(1i64 << (bits - 1)), (1i64 << (bits - 1)) - 1) } else { (0, (1i64 << bits) - 1) };
    if fork_bool(ok) && fork_bool((v >= lo) & (v <= hi)) { Some(v) } else { None }
}
macro_rules! int { ($m:expr, $b:expr, $t:ty, $s:expr) => {{
    let r = $m.get::<$t>("k").ok().map(|x| x as i128);
    let want = integer($b, $s, <$t>::BITS);
    check!(r.is_some() == want.is_some(), "a number is accepted or refused wrongly");
    if let (Some(x), Some(y)) = (r, want) { check!(x == y, "a number is read as another number"); cover!("number"); } else { cover!("not a number"); }
}} }
/// args: type (bits, negative if signed), bytes, 0 any / 1 digits / 2 minus and digits,
/// leading digits that are those of the type's largest value
pub fn ints(a: &[&'static str]) {
    let mut v = vec![0u8; n(a, 1)]; sym::bytes(&mut v, nm!("value")); nonzero(&v);
    if n(a, 2) == 1 { let mut ok = true; for x in &v { ok = ok & (*x >= b'0') & (*x <= b'9'); } sym::assume(ok); }
    if n(a, 2) == 2 { let mut ok = v[0] == b'-'; for x in &v[1..] { ok = ok & (*x >= b'0') & (*x <= b'9'); } sym::assume(ok); }
    if n(a, 3) > 0 {
        let o = (n(a, 2) == 2) as usize;
        let top: &[u8] = match a[0] { "32" => b"4294967295", "-32" => b"2147483647", "64" => b"18446744073709551615", "-64" => b"9223372036854775807", _ => sym::limit(nm!("type")) };
        for i in 0..n(a, 3) { sym::assume(v[o + i] == top[i]); v[o + i] = top[i]; }
    }
    let mut e = b"k=".to_vec(); e.extend_from_slice(&v);
    let m = map(&vec![e]);
    match a[0] {
        "8" => int!(m, &v, u8, false), "16" => int!(m, &v, u16, false), "32" => int!(m, &v, u32, false), "64" => int!(m, &v, u64, false),
        "-8" => int!(m, &v, i8, true), "-16" => int!(m, &v, i16, true), "-32" => int!(m, &v, i32, true), _ => int!(m, &v, i64, true),
    }
}
/// Booleans, strings and paths.  args: bytes
pub fn words(a: &[&'static str]) {
    let k = if a[0] == "long" { 0 } else { n(a, 0) };
    // or of any of many lengths, with any printable bytes at either end
    let v = if a[0] == "long" {
        let k = LENGTHS[sym::fork(LENGTHS.len() as u32, nm!("length")) as usize];
        let mut b: Vec<u8> = (0..k).map(|j| b' ' + ((j * 7 + j / 251) % 95) as u8).collect();
        for i in [0, 1, k / 2, k.saturating_sub(2), k.saturating_sub(1)] { if i < k { b[i] = sym::u8(nm!("byte")); sym::assume((b[i] != 0) & (b[i] < 0x80)); } }
        b
    } else { let mut v = vec![0u8; k]; sym::bytes(&mut v, nm!("value")); nonzero(&v); v };
    let k = v.len();
    let mut e = b"k=".to_vec(); e.extend_from_slice(&v);
    let m = map(&vec![e]);
    let t = k == 4 && fork_bool(same(&v, b"true")); let f = k == 5 && fork_bool(same(&v, b"false"));
    match m.get::<bool>("k") { Ok(x) => { check!((x && t) || (!x && f), "something else than true or false is a boolean"); cover!("boolean"); } Err(_) => { check!(!t && !f, "true or false is not a boolean"); cover!("not a boolean"); } }
    let mut ascii = true; for x in &v { ascii = ascii & (*x < 0x80); }
    if fork_bool(ascii) {
        check!(m.get::<String>("k").map_or(false, |s| same(s.as_bytes(), &v)), "a string is read as another string");
        check!(m.get::<PathBuf>("k").map_or(false, |s| same(std::os::unix::ffi::OsStrExt::as_bytes(s.as_os_str()), &v)), "a path is read as another path");
        check!(m.get_str("k").map_or(false, |s| same(s.as_bytes(), &v)), "a string is read as another string");
    }
    else {
        let u = std::str::from_utf8(&v).is_ok();
        match m.get_str("k") { Some(s) => check!(u && same(s.as_bytes(), &v), "a string is read as another string"), None => check!(!u, "a string is refused") }
        match m.get::<String>("k") { Ok(s) => check!(u && same(s.as_bytes(), &v), "a string is read as another string"), Err(_) => check!(!u, "a string is refused") }
        match m.get::<PathBuf>("k") { Ok(s) => check!(same(std::os::unix::ffi::OsStrExt::as_bytes(s.as_os_str()), &v), "a path is read as another path"), Err(_) => check!(!u, "a path is refused") }
    }
    check!(m.get_bytes(b"k").map_or(false, |s| same(s, &v)), "the raw value is another");
    check!(m.get::<String>("j").is_err() && m.get::<bool>("j").is_err() && m.get::<u32>("j").is_err(), "a missing key has a value");
}
/// Lists of numbers.  args: bytes of the list
pub fn lists(a: &[&'static str]) {
    if a[0] == "long" {
        // many numbers, two of them of any digits
        let k = [17, 33, 65, 129, 257, 1025][sym::fork(6, nm!("how many numbers")) as usize];
        let at = [0, 1, k / 2, k - 2, k - 1][sym::fork(5, nm!("where")) as usize];
        let (y, x) = crate::h_pair::num(3, nm!("last digits"));
        let fits = sym::fork(2, nm!("does it fit")) == 1; let mut d = if fits { b"4294966".to_vec() } else { b"4294968".to_vec() }; d.extend_from_slice(&y); let x = 4294966000u64 + x as u64;
        let mut t = b"k=".to_vec(); for i in 0..k { if i > 0 { t.push(b','); } if i == at { t.extend_from_slice(&d); } else { t.extend_from_slice((4200000000u32 + i as u32 * 7).to_string().as_bytes()); } }
        let m = map(&vec![t]);
        match m.get::<Vec<u32>>("k") {
            Ok(l) => { check!(fits, "a list is accepted or refused wrongly"); check!(l.len() == k, "a list has another length"); for i in 0..k { check!(if i == at { l[i] == x as u32 } else { l[i] == 4200000000 + i as u32 * 7 }, "a list has another element"); } cover!("list"); }
            Err(_) => { check!(!fits, "a list is accepted or refused wrongly"); cover!("not a list"); }
        }
        return;
    }
    let mut v = vec![0u8; n(a, 0)]; sym::bytes(&mut v, nm!("list"));
    // digits, commas, signs, blanks and one kind of garbage
    let mut ok = true; for x in &v { ok = ok & (((*x >= b'0') & (*x <= b'9')) | (*x == b',') | (*x == b'x') | (*x == b' ') | (*x == b'+') | (*x == b'-') | (*x == b'\t')); } sym::assume(ok);
    let mut e = b"k=".to_vec(); e.extend_from_slice(&v);
    let m = map(&vec![e]);
    let mut want: Option<Vec<u32>> = Some(vec![]);
    let mut i = 0;
    loop {
        let mut j = i; while j < v.len() && !fork_bool(v[j] == b',') { j += 1; }
        match integer(&v[i..j], false, 32) { Some(x) => { if let Some(l) = &mut want { l.push(x as u32); } } None => want = None }
        if j >= v.len() { break; }
        i = j + 1;
    }
    let r = m.get::<Vec<u32>>("k").ok();
    check!(r.is_some() == want.is_some(), "a list is accepted or refused wrongly");
    if let (Some(x), Some(y)) = (&r, &want) {
        check!(x.len() == y.len(), "a list has another length");
        for i in 0..x.len() { check!(x[i] == y[i], "a list has another element"); }
        cover!("list");
        let h = m.get::<HashSet<u32>>("k");
        check!(h.is_ok(), "a set is refused");
        if let Ok(h) = h { for y in y { check!(h.contains(y), "a set lacks an element"); } let mut d = 0; for i in 0..y.len() { let mut first = true; for j in 0..i { if y[i] == y[j] { first = false; } } if first { d += 1; } } check!(h.len() == d, "a set has another size"); }
    } else { check!(m.get::<HashSet<u32>>("k").is_err(), "a set is accepted although the list is not one"); cover!("not a list"); }
    // the same with signs
    let mut ok = true; let mut i = 0;
    loop { let mut j = i; while j < v.len() && !fork_bool(v[j] == b',') { j += 1; } if integer(&v[i..j], true, 32).is_none() { ok = false; } if j >= v.len() { break; } i = j + 1; }
    check!(m.get::<Vec<i32>>("k").is_ok() == ok, "a list of signed numbers is accepted or refused wrongly");
}
/// Long and many entries.  args: entries besides the one asked for, is there a separator
const LENGTHS: [usize; 25] = [0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 5000, 70000];
pub fn optlong(a: &[&'static str]) {
    let sep = n(a, 1) == 1;
    let some = |k: usize, salt: usize| -> Vec<u8> {
        let mut b: Vec<u8> = (0..k).map(|j| 1 + ((j * 7 + j / 251 + salt) % 255) as u8).map(|c| if c == b'=' { b'-' } else { c }).collect();
        let mut at = 0;
        for e in [0usize, 32, 64, 128, 256, 1024, k] { let (lo, hi) = (e.saturating_sub(1).max(at), (e + 1).min(k)); if lo < hi { sym::bytes(&mut b[lo..hi], nm!("entry")); at = hi; } }
        b
    };
    let k = some(LENGTHS[sym::fork(LENGTHS.len() as u32, nm!("length of the key")) as usize], 0);
    let v = if sep { some(LENGTHS[sym::fork(LENGTHS.len() as u32, nm!("length of the value")) as usize], 3) } else { k.clone() };
    let mut ok = true; for c in &k { ok = ok & (*c != 0) & (*c != b'='); } sym::assume(ok);
    let mut ok = true; for c in &v { ok = ok & (*c != 0); } sym::assume(ok);
    let mut e = k.clone(); if sep { e.push(b'='); e.extend_from_slice(&v); }
    let others = n(a, 0);
    let mut l: L = (0..others).map(|i| format!("other{}={}", i, i * i).into_bytes()).collect();
    let at = if others > 0 { [0, others / 2, others][sym::fork(3, nm!("where")) as usize] } else { 0 };
    sym::assume(!(k.len() >= 6 && same(&k[..5], b"other")));
    l.insert(at, e);
    let m = map(&l);
    match m.get_bytes(&k) { Some(x) => { check!(x.len() == v.len() && same(x, &v), "a key has another value than the last one given"); cover!("present"); } None => check!(false, "a key that was given has no value") }
    if k.len() > 0 { check!(m.get_bytes(&k[..k.len() - 1]).is_none(), "a key that was not given has a value"); }
    let mut more = k.clone(); more.push(b'x'); check!(m.get_bytes(&more).is_none(), "a key that was not given has a value");
    for i in [0, 1, others / 2, others.saturating_sub(1)] { if i < others {
        check!(m.get::<u64>(&format!("other{}", i)).ok() == Some((i * i) as u64), "a key that was given has no value");
    } }
}
/// ADDR/MASK lists never take the parser down and mean what they say.
/// args: bytes (free form); "v4" with digits per number; "many" with entries;
/// "edit" with which list, bytes replaced, added, left out
pub fn addrs(a: &[&'static str]) {
    let mut s = l3(b"plugin_dir=/p", b"plugin_path=/q", b"progname=sudo");
    if a[0] == "v4" {
        let mut t = vec![]; let mut ip = [0u8; 8];
        for i in 0..8 { let (d, v) = crate::h_pair::num(n(a, 1), nm!("part")); sym::assume(v < 256); if n(a, 1) > 1 { sym::assume(d[0] != b'0'); } t.extend_from_slice(&d); if i == 3 { t.push(b'/') } else if i < 7 { t.push(b'.') } ip[i] = v as u8; }
        put(&mut s, b"network_addrs", &t);
        let x = Settings::try_from(map(&s)).ok().unwrap();
        check!(x.network_addrs.len() == 1, "an address is lost");
        if let (std::net::IpAddr::V4(p), std::net::IpAddr::V4(q)) = (x.network_addrs[0].addr, x.network_addrs[0].mask) { check!(same(&p.octets(), &ip[..4]) & same(&q.octets(), &ip[4..]), "an address is read as another"); cover!("address"); } else { check!(false, "an IPv4 address is read as another kind") }
    } else if a[0] == "edit" {
        // a well-formed list with up to two bytes replaced by any others
        let mut t: Vec<u8> = match n(a, 1) { 0 => b"1.20.3.4/255.0.0.7".to_vec(), 1 => b"1.2.3.4/9.0.0.0 5.6.7.8/0.0.0.0".to_vec(), 2 => b"1::2/f::".to_vec(), 3 => b"::1/a:: 1.2.3.4/9.0.0.0".to_vec(), 4 => b"1:2:3:4:5:6:7:8/::".to_vec(), _ => b"1.2.3.4/9.0.0.0 1:2:3:4:5:6:7:8/9:: 5.6.7.8/0.0.0.0".to_vec() };
        let len = t.len() as u32;
        for _ in 0..n(a, 2) { let i = sym::fork(len, nm!("where")) as usize; t[i] = sym::u8(nm!("byte")); sym::assume(t[i] != 0); }
        if n(a, 3) > 0 { let i = sym::fork(len + 1, nm!("where")) as usize; let b = sym::u8(nm!("byte")); sym::assume(b != 0); t.insert(i, b); }
        if n(a, 4) > 0 { let i = sym::fork(len, nm!("left out")) as usize; t.remove(i); }
        listed(&mut s, &t);
    } else if a[0] == "long" {
        // many entries, one of them with any digit
        let k = [17, 33, 65, 129, 257][sym::fork(5, nm!("how many entries")) as usize];
        let at = [0, k / 2, k - 1][sym::fork(3, nm!("where")) as usize]; let c = sym::u8(nm!("digit")); sym::assume((c >= b'1') & (c <= b'9'));
        let mut t = vec![];
        for i in 0..k { if i > 0 { t.push(b' '); } t.extend_from_slice(&if i == at { [b"1.2.", &[c][..], b".4/255.0.0.0"].concat() } else if i % 3 == 0 { format!("fe80::{:x}/ffff::", i + 1).into_bytes() } else { format!("10.{}.{}.1/255.255.0.0", i % 256, i / 256).into_bytes() }); }
        put(&mut s, b"network_addrs", &t);
        let x = match Settings::try_from(map(&s)) { Ok(x) => x, _ => { check!(false, "a malformed address list makes the whole of the settings unreadable"); return } };
        check!(x.network_addrs.len() == k, "an address is lost");
        for i in 0..k {
            let (mut p, mut q) = (vec![0u8; 4], vec![255u8, 0, 0, 0]);
            if i == at { p = vec![1, 2, c - b'0', 4]; } else if i % 3 == 0 { p = vec![0; 16]; p[0] = 0xfe; p[1] = 0x80; p[14] = ((i + 1) >> 8) as u8; p[15] = (i + 1) as u8; q = vec![0; 16]; q[0] = 255; q[1] = 255; } else { p = vec![10, (i % 256) as u8, (i / 256) as u8, 1]; q[1] = 255; }
            check!(same(&octets(x.network_addrs[i].addr), &p) & same(&octets(x.network_addrs[i].mask), &q), "an address is read as another");
        }
        cover!("address");
    } else if a[0] == "many" {
        // entries of any kind, some malformed
        let kinds: [&'static [u8]; 12] = [b"1.2.3.4/255.255.255.0", b"10.0.0.1/255.0.0.0", b"::1/ffff::", b"fe80::1/ffff:ffff::", b"", b"1.2.3.4", b"1.2.3.4/24", b"256.0.0.1/1.1.1.1", b"x/y", b"/", b"\xff/\xfe", b"1.2.3.4/1.2.3.4/1.2.3.4"];
        let mut t = vec![];
        for i in 0..n(a, 1) { if i > 0 { t.push(b' '); } t.extend_from_slice(kinds[sym::fork(12, nm!("kind")) as usize]); }
        listed(&mut s, &t);
    } else {
        let mut t = vec![0u8; n(a, 0)]; sym::bytes(&mut t, nm!("value"));
        let mut ok = true; for x in &t { ok = ok & ((*x == b'1') | (*x == b'/') | (*x == b'.') | (*x == b':') | (*x == b' ') | (*x == b'a')); } sym::assume(ok);
        put(&mut s, b"network_addrs", &t);
        let r = std::panic::catch_unwind(|| Settings::try_from(map(&s)).is_ok());
        check!(matches!(r, Ok(true)), "a malformed address list makes the whole of the settings unreadable");
        cover!("survived");
    }
}
/// The list read is the one that is spelled, or none.
fn listed(s: &mut L, t: &[u8]) {
    put(s, b"network_addrs", t);
    let x = match std::panic::catch_unwind(|| Settings::try_from(map(s)).ok()) { Ok(Some(x)) => x, _ => { check!(false, "a malformed address list makes the whole of the settings unreadable"); return } };
    match ref_list(t) {
        None => { check!(x.network_addrs.is_empty(), "a malformed address list is not ignored"); cover!("survived"); }
        Some(want) => {
            check!(x.network_addrs.len() == want.len(), "an address is lost");
            let mut ok = true;
            for (g, w) in x.network_addrs.iter().zip(&want) { ok = ok & same(&octets(g.addr), &w.0) & same(&octets(g.mask), &w.1); }
            check!(ok, "an address is read as another"); cover!("address");
        }
    }
}
fn octets(a: std::net::IpAddr) -> Vec<u8> { match a { std::net::IpAddr::V4(x) => x.octets().to_vec(), std::net::IpAddr::V6(x) => x.octets().to_vec() } }
fn ref_list(t: &[u8]) -> Option<Vec<(Vec<u8>, Vec<u8>)>> {
    let mut out = vec![]; let mut i = 0;
    loop {
        let mut j = i; let mut slash = t.len();
        while j < t.len() && fork_bool(t[j] != b' ') { if slash == t.len() && fork_bool(t[j] == b'/') { slash = j; } j += 1; }
        if slash == t.len() { return None; }
        out.push((ref_addr(&t[i..slash])?, ref_addr(&t[slash + 1..j])?));
        if j == t.len() { return Some(out); }
        i = j + 1;
    }
}
fn ref_addr(t: &[u8]) -> Option<Vec<u8>> { ref_v4(t).or_else(|| ref_v6(t)) }
/// Four decimal numbers below 256 without leading zeros.
fn ref_v4(t: &[u8]) -> Option<Vec<u8>> {
    let mut out = vec![]; let mut cur: u32 = 0; let mut digits = 0; let mut zero = false;
    for i in 0..t.len() + 1 {
        if i == t.len() || fork_bool(t[i] == b'.') {
            if digits == 0 || out.len() == 4 || !fork_bool(cur < 256) { return None; }
            out.push(cur as u8); cur = 0; digits = 0; zero = false;
        } else {
            if !fork_bool((t[i] >= b'0') & (t[i] <= b'9')) { return None; }
            if digits == 3 || zero { return None; }
            if digits == 0 { zero = fork_bool(t[i] == b'0'); }
            cur = cur * 10 + (t[i] - b'0') as u32; digits += 1;
        }
    }
    if out.len() == 4 { Some(out) } else { None }
}
/// Eight groups of one to four hexadecimal digits, one run of at least one
/// group left out as ::, the last two perhaps an IPv4 address.
fn ref_v6(t: &[u8]) -> Option<Vec<u8>> {
    let mut groups: Vec<u16> = vec![]; let mut gap: Option<usize> = None; let mut i = 0;
    if i < t.len() && fork_bool(t[i] == b':') { if t.len() < 2 || !fork_bool(t[1] == b':') { return None; } gap = Some(0); i = 2; }
    while i < t.len() {
        if t.len() - i >= 7 && groups.len() <= 6 { if let Some(q) = ref_v4(&t[i..]) { groups.push((q[0] as u16) << 8 | q[1] as u16); groups.push((q[2] as u16) << 8 | q[3] as u16); break; } }
        let mut v = 0u16; let mut d = 0;
        while i < t.len() && fork_bool(t[i] != b':') {
            let c = t[i];
            let x = if fork_bool((c >= b'0') & (c <= b'9')) { c - b'0' } else if fork_bool((c >= b'a') & (c <= b'f')) { c - b'a' + 10 } else if fork_bool((c >= b'A') & (c <= b'F')) { c - b'A' + 10 } else { return None };
            if d == 4 { return None; }
            v = v * 16 + x as u16; d += 1; i += 1;
        }
        if d == 0 { return None; }
        groups.push(v);
        if i == t.len() { break; }
        i += 1;                                  // a colon
        if i == t.len() { return None; }
        if fork_bool(t[i] == b':') { if gap.is_some() { return None; } gap = Some(groups.len()); i += 1; }
    }
    let mut out = vec![];
    match gap {
        None => if groups.len() != 8 { return None },
        Some(g) => { if groups.len() > 7 { return None; } let fill = 8 - groups.len(); for _ in 0..fill { groups.insert(g, 0); } }
    }
    for g in groups { out.push((g >> 8) as u8); out.push(g as u8); }
    Some(out)
}
fn l3(a: &[u8], b: &[u8], c: &[u8]) -> L { vec![a.to_vec(), b.to_vec(), c.to_vec()] }

// ------------------------------------------------------------- the 3 structs
#[derive(Clone, Copy, PartialEq)]
enum K { S, P, U64, Oct(u32), I64, B(bool), ReqS, ReqN, N32(i64), OptN, Fds, Gids, ReqGids, ReqP, SP, Cmd }
type F = (&'static [u8], K);
/// One field as bytes: absent is empty, present is a 1 and the value.  The
/// types the fields happen to have do not matter.
trait Val { fn val(&self) -> Vec<u8>; }
macro_rules! ints { ($($t:ty),*) => { $(impl Val for $t { fn val(&self) -> Vec<u8> { num(*self as i64) } })* } }
ints!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize);
fn num(x: i64) -> Vec<u8> { let mut v = vec![1]; v.extend_from_slice(&x.to_le_bytes()); v }
fn bb(b: bool) -> Vec<u8> { vec![1, b as u8] }
fn text(b: &[u8]) -> Vec<u8> { let mut v = vec![1]; v.extend_from_slice(b); v }
fn lst(l: &[u32]) -> Vec<u8> { let mut v = vec![1]; for x in l { v.extend_from_slice(&num(*x as i64)); } v }
impl Val for bool { fn val(&self) -> Vec<u8> { bb(*self) } }
impl Val for String { fn val(&self) -> Vec<u8> { text(self.as_bytes()) } }
impl Val for PathBuf { fn val(&self) -> Vec<u8> { text(std::os::unix::ffi::OsStrExt::as_bytes(self.as_os_str())) } }
impl Val for std::ffi::OsString { fn val(&self) -> Vec<u8> { text(std::os::unix::ffi::OsStrExt::as_bytes(self.as_os_str())) } }
impl<T: Val> Val for Option<T> { fn val(&self) -> Vec<u8> { match self { None => vec![], Some(x) => x.val() } } }
impl<T: Val> Val for Vec<T> { fn val(&self) -> Vec<u8> { let mut v = vec![1]; for x in self { v.extend_from_slice(&x.val()); } v } }
macro_rules! snap { ($s:expr; $($f:ident)*) => { vec![$($s.$f.val()),*] } }

const SETTINGS: &[F] = &[(b"plugin_dir", K::ReqS), (b"plugin_path", K::ReqS), (b"progname", K::ReqS), (b"bsdauth_type", K::S), (b"closefrom", K::U64), (b"debug_flags", K::S), (b"debug_level", K::U64), (b"ignore_ticket", K::B(false)), (b"implied_shell", K::B(false)), (b"login_class", K::S), (b"login_shell", K::B(false)), (b"max_groups", K::U64), (b"noninteractive", K::B(false)), (b"preserve_environment", K::B(false)), (b"preserve_groups", K::B(false)), (b"prompt", K::S), (b"remote_host", K::S), (b"run_shell", K::B(false)), (b"runas_group", K::S), (b"runas_user", K::S), (b"selinux_role", K::S), (b"selinux_type", K::S), (b"set_home", K::B(false)), (b"sudoedit", K::B(false)), (b"timeout", K::S)];
fn snap_settings(s: &Settings) -> Vec<Vec<u8>> {
    snap!(s; plugin_dir plugin_path progname bsd_auth_type close_from debug_flags debug_level ignore_ticket implied_shell login_class login_shell max_groups noninteractive preserve_environment preserve_groups prompt remote_host run_shell runas_group runas_user selinux_role selinux_type set_home sudoedit timeout)
}
const USER: &[F] = &[(b"cwd", K::ReqP), (b"egid", K::ReqN), (b"euid", K::ReqN), (b"gid", K::ReqN), (b"groups", K::ReqGids), (b"host", K::ReqS), (b"pgid", K::ReqN), (b"pid", K::ReqN), (b"ppid", K::ReqN), (b"uid", K::ReqN), (b"user", K::ReqS), (b"umask", K::S), (b"cols", K::N32(80)), (b"lines", K::N32(24)), (b"sid", K::N32(0)), (b"tcpgid", K::N32(-1)), (b"tty", K::P)];
fn snap_user(s: &UserInfo) -> Vec<Vec<u8>> {
    snap!(s; cwd egid euid gid groups host pgid pid ppid uid user umask cols lines sid tcpgid tty)
}
const COMMAND: &[F] = &[(b"command", K::Cmd), (b"runas_gid", K::N32(61)), (b"runas_uid", K::N32(60)), (b"runas_egid", K::N32(61)), (b"runas_euid", K::N32(60)), (b"umask", K::Oct(0o7777)), (b"chroot", K::S), (b"closefrom", K::U64), (b"cwd", K::Cmd), (b"exec_background", K::B(false)), (b"execfd", K::U64), (b"iolog_compress", K::B(false)), (b"iolog_group", K::S), (b"iolog_mode", K::S), (b"iolog_path", K::S), (b"iolog_stdin", K::B(false)), (b"iolog_stdout", K::B(false)), (b"iolog_stderr", K::B(false)), (b"iolog_ttyin", K::B(false)), (b"iolog_ttyout", K::B(false)), (b"iolog_user", K::S), (b"login_class", K::S), (b"nice", K::I64), (b"noexec", K::B(false)), (b"preserve_fds", K::Fds), (b"preserve_groups", K::B(false)), (b"runas_groups", K::Gids), (b"selinux_role", K::S), (b"selinux_type", K::S), (b"set_utmp", K::B(false)), (b"sudoedit", K::B(false)), (b"sudoedit_checkdir", K::B(true)), (b"sudoedit_follow", K::B(false)), (b"timeout", K::U64), (b"umask_override", K::OptN), (b"use_pty", K::B(false)), (b"utmp_user", K::S)];
fn snap_command(s: &CommandInfo) -> Vec<Vec<u8>> {
    snap!(s; command runas_gid runas_uid runas_egid runas_euid umask chroot close_from cwd exec_background exec_fd iolog_compress iolog_group iolog_mode iolog_path iolog_stdin iolog_stdout iolog_stderr iolog_ttyin iolog_ttyout iolog_user login_class nice noexec preserve_fds preserve_groups runas_groups selinux_role selinux_type set_utmp sudoedit sudoedit_checkdir sudoedit_follow timeout umask_override use_pty utmp_user)
}
fn required(k: K) -> bool { matches!(k, K::ReqS | K::ReqN | K::ReqGids | K::ReqP) }
fn snap(which: usize, l: &L) -> Option<Vec<Vec<u8>>> {
    match which { 0 => Settings::try_from(map(l)).ok().map(|s| snap_settings(&s)), 1 => UserInfo::try_from(map(l)).ok().map(|s| snap_user(&s)), _ => CommandInfo::try_from(map(l)).ok().map(|s| snap_command(&s)) }
}
/// Each setting fills its own field and no other, malformed values fall back
/// to the default, required ones make the session fail.
/// args: which struct (0 settings, 1 user, 2 command), 0 right key / 1 nearly right key / 2 any other key
pub fn fields(a: &[&'static str]) {
    let which = n(a, 0);
    let (t, base): (&[F], L) = match which { 0 => (SETTINGS, Sess::base().settings), 1 => (USER, Sess::base().user), _ => (COMMAND, vec![]) };
    w().euid = 60; w().egid = 61;
    let i = if n(a, 1) == 2 { 0 } else { sym::fork(t.len() as u32, nm!("setting")) as usize };
    let (key, kind) = t[i];
    let before = snap(which, &base).unwrap();
    // documented defaults
    match kind { K::B(d) => check!(same(&before[i], &bb(d)), "a setting that was not given has another value than its default"), K::N32(d) => check!(same(&before[i], &num(d)), "a setting that was not given has another value than its default"), K::S | K::P | K::U64 | K::I64 | K::OptN | K::Gids => check!(before[i].is_empty(), "a setting that was not given has a value"), K::Oct(d) => check!(same(&before[i], &num(d as i64)), "a setting that was not given has another value than its default"), _ => {} }
    let mut l = base.clone();
    if n(a, 1) == 1 {
        // a key that is nearly this one is some other setting, or none
        let mut k = key.to_vec();
        let how = sym::fork(5, nm!("how the key differs"));
        let j = sym::fork(key.len() as u32, nm!("byte of the key")) as usize;
        let c = sym::u8(nm!("byte")); sym::assume((c != 0) & (c != b'='));
        match how { 0 => { sym::assume(c != k[j]); k[j] = c; } 1 => k.insert(j, c), 2 => { k.remove(j); } 3 => k.truncate(j), _ => k = k.split_off(j) }
        for x in t { if x.0.len() == k.len() { sym::assume(!same(&k, x.0)); } }
        k.extend_from_slice(if sym::fork(2, nm!("value")) == 0 { b"=true" } else { b"=7" }); l.push(k);
        check!(same2(&snap(which, &l).unwrap(), &before), "an unknown setting changes something");
        return;
    }
    if n(a, 1) == 2 {
        // any other key at all
        let mut k = vec![0u8; sym::fork(25, nm!("length of the key")) as usize]; sym::bytes(&mut k, nm!("key"));
        let mut ok = true; for c in &k { ok = ok & (*c != 0) & (*c != b'='); } for x in t { if x.0.len() == k.len() { ok = ok & !same(&k, x.0); } } sym::assume(ok);
        k.extend_from_slice([&b"=true"[..], b"=7", b"=/7,7"][sym::fork(3, nm!("value")) as usize]); l.push(k);
        check!(same2(&snap(which, &l).unwrap(), &before), "an unknown setting changes something");
        return;
    }
    if n(a, 1) == 3 {
        // long values, any byte or digit at one place
        let ends = |v: &mut Vec<u8>, lo: u8, hi: u8| { let k = v.len(); let i = [0, k / 2, k - 1][sym::fork(3, nm!("where")) as usize]; v[i] = sym::u8(nm!("byte")); sym::assume((v[i] >= lo) & (v[i] <= hi)); };
        let (v, x) = match kind {
            K::S | K::P | K::ReqS | K::ReqP | K::SP | K::Cmd => { let k = [17, 33, 65, 108, 129, 257, 1025, 4097, 70000][sym::fork(9, nm!("length")) as usize]; let mut v: Vec<u8> = (0..k).map(|j| b'!' + ((j * 7 + j / 89) % 90) as u8).collect(); ends(&mut v, 1, 127); let x = text(&v); (v, x) }
            K::Fds | K::Gids | K::ReqGids => {
                let k = [17, 33, 65, 129, 257, 1025][sym::fork(6, nm!("how many")) as usize]; let at = [0, k / 2, k - 1][sym::fork(3, nm!("where")) as usize];
                let (d, y) = crate::h_pair::num(2, nm!("number")); let mut v = vec![]; let mut l = vec![];
                for i in 0..k as u32 { if i > 0 { v.push(b','); } if i as usize == at { v.extend_from_slice(&d); l.push(y as u32); } else { v.extend_from_slice((1000000 + i * 3).to_string().as_bytes()); l.push(1000000 + i * 3); } }
                (v, lst(&l))
            }
            _ => return,
        };
        put(&mut l, key, &v);
        let r = match snap(which, &l) { Some(r) => r, None => { check!(false, "well-formed or optional settings make the session fail"); return; } };
        for k in 0..t.len() { if k == i { check!(same(&r[k], &x), "a setting has another value than the one given"); } else { check!(same(&r[k], &before[k]), "a setting changes another one"); } }
        cover!("read");
        return;
    }
    // the value: two bytes of the right form, or not
    let good = fork_bool(sym::bool(nm!("well-formed")));
    let mut v = vec![0u8; 2]; sym::bytes(&mut v, nm!("value"));
    let digits = (v[0] >= b'0') & (v[0] <= b'9') & (v[1] >= b'0') & (v[1] <= b'9');
    let d = (v[0].wrapping_sub(b'0') as u64) * 10 + v[1].wrapping_sub(b'0') as u64;
    let b = fork_bool(v[0] == b't');
    let ascii = (v[0] < 0x80) & (v[1] < 0x80) & (v[0] != 0) & (v[1] != 0);
    let want: Option<Vec<u8>> = match kind {
        K::S | K::P | K::ReqS | K::ReqP | K::SP => {
            if good { sym::assume(ascii); let mut x = vec![1]; x.extend_from_slice(&v); Some(x) } else { sym::assume((v[0] >= 0x80) & (v[1] < 0x80) & (v[1] != 0)); None }
        }
        // these are paths and may consist of any bytes
        K::Cmd => { sym::assume((v[0] != 0) & (v[1] != 0)); let mut x = vec![1]; x.extend_from_slice(&v); Some(x) }
        K::B(_) | K::OptN => { if good { v = if b { b"true".to_vec() } else { b"false".to_vec() }; Some(bb(b)) } else { sym::assume(ascii); None } }
        K::Fds | K::Gids | K::ReqGids => { if good { sym::assume(digits); Some(lst(&[d as u32])) } else { sym::assume(ascii & !((v[0] >= b'0') & (v[0] <= b'9')) & (v[0] != b'+') & (v[0] != b'-')); None } }
        K::Oct(_) => { if good { sym::assume(digits & (v[0] < b'8') & (v[1] < b'8')); Some(num(((d / 10) * 8 + d % 10) as i64)) } else { sym::assume(ascii & (v[0] != b'+') & (v[0] != b'-') & !((v[0] >= b'0') & (v[0] < b'8') & (v[1] >= b'0') & (v[1] < b'8'))); None } }
        K::I64 if good && fork_bool(v[0] == b'-') => { sym::assume((v[1] >= b'0') & (v[1] <= b'9')); Some(num(-(v[1].wrapping_sub(b'0') as i64))) }
        _ => { if good { sym::assume(digits); Some(num(d as i64)) } else { sym::assume(ascii & !((v[0] >= b'0') & (v[0] <= b'9')) & (v[0] != b'+') & (v[0] != b'-')); None } }
    };
    put(&mut l, key, &v);
    let r = snap(which, &l);
    match want {
        None if required(kind) => { check!(r.is_none(), "a required setting that cannot be read is accepted"); cover!("required and malformed"); }
        _ => {
            if r.is_none() { check!(false, "well-formed or optional settings make the session fail"); return; }
            let r = r.unwrap();
            let mut e = before.clone();
            if let Some(x) = want { e[i] = x.clone();
                if which == 2 && key == b"runas_gid" { e[3] = x.clone(); }     // the effective ids follow the real ones
                if which == 2 && key == b"runas_uid" { e[4] = x; }
                cover!("read"); } else { if key == b"runas_uid" || key == b"runas_gid" {} cover!("default"); }
            for k in 0..t.len() { if k == i { check!(same(&r[k], &e[k]), "a setting has another value than the one given"); } else { check!(same(&r[k], &e[k]), "a setting changes another one"); } }
        }
    }
    if required(kind) { let mut l = base.clone(); del(&mut l, key); check!(snap(which, &l).is_none(), "a session without a required setting is accepted"); cover!("required"); }
}
fn same2(a: &[Vec<u8>], b: &[Vec<u8>]) -> bool { let mut r = a.len() == b.len(); if r { for i in 0..a.len() { r = r & same(&a[i], &b[i]); } } r }

/// What a plugin is told when a required setting is missing.
pub fn missing(_a: &[&'static str]) {
    w().init();
    let mut s = Sess::base();
    let k = sym::fork(14, nm!("missing setting")) as usize;
    let keys: [&[u8]; 14] = [b"plugin_dir", b"plugin_path", b"progname", b"cwd", b"egid", b"euid", b"gid", b"groups", b"host", b"pgid", b"pid", b"ppid", b"uid", b"user"];
    if k < 3 { del(&mut s.settings, keys[k]); } else { del(&mut s.user, keys[k]); }
    for pl in [plain(), Plugin::pair()] {
        w().printed.clear();
        let r = pl.open(&s);
        check!(r == OPEN_DENY, "a session without a required setting is not denied");
        if pl.0 == plain().0 { check!(has(w().printed.get(), keys[k]), "the missing setting is not named"); }
        check!(w().printed.n > 0 && w().last_level == 3, "the user is not told why");
        cover!("missing");
    }
}

// ------------------------------------------------------------------- groups
static mut LIST: Vec<u32> = Vec::new();
fn gids(env: &'static IoEnv) {
    let q = sym::u32(nm!("some group"));
    let set = env.runas_gids();
    let mut want = false; for x in unsafe { &LIST } { want = want | (*x == q); }
    check!(fork_bool(set.contains(&q)) == fork_bool(want), "the groups of the command are not those sudo announced");
    cover!("groups");
}
/// args: runas_groups (0: -P), digits, further groups in either list
pub fn runas_gids(a: &[&'static str]) {
    w().init();
    let k = n(a, 1);
    let mut s = Sess::base();
    let more = |d: &mut Vec<u8>, l: &mut Vec<u32>, base: u32, step: u32| { let (e, m) = (d.clone(), l.clone()); d.clear(); l.clear(); for i in 0..n(a, 2) as u32 { let g = base + i * step; d.extend_from_slice(g.to_string().as_bytes()); d.push(b','); l.push(g); } d.extend(e); l.extend(m); };
    let (mut d, mut g) = nums(2, k, nm!("user groups")); more(&mut d, &mut g, 1000, 3); put(&mut s.user, b"groups", &d);
    let mut l = g; let mut given = vec![];
    if n(a, 0) > 0 { let (mut d, mut v) = nums(n(a, 0), k, nm!("runas_groups")); more(&mut d, &mut v, 100000, 65537); put(&mut s.cmd, b"runas_groups", &d); given = v; } else { del(&mut s.cmd, b"runas_groups"); }
    // -P: sudo then ignores runas_groups
    match sym::fork(3, nm!("are the user's groups preserved")) { 0 => put(&mut s.cmd, b"preserve_groups", b"true"), 1 => { put(&mut s.cmd, b"preserve_groups", b"false"); if n(a, 0) > 0 { l = given; } } _ => { if n(a, 0) > 0 { l = given; } } }
    let (d, v) = crate::h_pair::num(k, nm!("runas_gid")); put(&mut s.cmd, b"runas_gid", &d);
    if sym::fork(2, nm!("effective gid given")) == 1 { let (d, v) = crate::h_pair::num(k, nm!("runas_egid")); put(&mut s.cmd, b"runas_egid", &d); l.push(v); } else { l.push(v); }
    unsafe { LIST = l; }
    p().on_open = Some(gids);
    check!(plain().open(&s) == OPEN_OK, "the plugin did not open");
}

// --------------------------------------------------------------- invocation
static mut WANT: Vec<u8> = Vec::new();
fn invoked(env: &'static IoEnv) { check!(same(&env.invocation(), unsafe { &WANT }), "the reconstructed command line is wrong"); cover!("command line"); }
/// args: mode (0 switches, 1 flags with a value, 2 all but one, 3 all but two), arguments, bytes per argument
pub fn invocation(a: &[&'static str]) {
    w().init();
    let mut s = Sess::base();
    // (setting, flag, has a value)
    let t: [(&[u8], &[u8], bool); 18] = [(b"sudoedit", b"--edit", false), (b"runas_user", b"--user ", true), (b"runas_group", b"--group ", true), (b"prompt", b"--prompt ", true), (b"login_shell", b"--login", false), (b"run_shell", b"--shell", false), (b"set_home", b"--set-home", false), (b"preserve_environment", b"--preserve-env", false), (b"preserve_groups", b"--preserve-groups", false), (b"ignore_ticket", b"--reset-timestamp", false), (b"noninteractive", b"--non-interactive", false), (b"login_class", b"--login-class ", true), (b"selinux_role", b"--role ", true), (b"selinux_type", b"--type ", true), (b"bsdauth_type", b"--auth-type ", true), (b"closefrom", b"--close-from ", true), (b"remote_host", b"--host ", true), (b"timeout", b"--command-timeout ", true)];
    let mode = n(a, 0);
    let (x, y) = if mode == 2 { (sym::fork(19, nm!("left out")), 99) } else if mode == 3 { (sym::fork(18, nm!("left out")), sym::fork(18, nm!("left out too"))) } else { (99, 99) };
    let edit = mode == 2 && sym::fork(2, nm!("run as sudoedit")) == 1;
    // values are any bytes
    let mut c = sym::u8(nm!("byte of a value")); sym::assume(c != 0);
    let mut e: Vec<u8> = b"sudo".to_vec();
    if edit { put(&mut s.settings, b"progname", b"sudoedit"); e = b"sudoedit".to_vec(); }
    for (i, (k, f, v)) in t.iter().enumerate() {
        let on = match mode { 0 => !*v && sym::fork(2, nm!("switch")) == 1, 1 => *v && sym::fork(2, nm!("flag")) == 1, _ => i as u32 != x && i as u32 != y };
        if !on { if mode == 2 && !*v && sym::fork(2, nm!("off is written out")) == 1 { put(&mut s.settings, k, b"false"); } continue; }
        let x = c;
        put(&mut s.settings, k, if *v { std::slice::from_ref(&x) } else { b"true" });
        if i == 0 && edit { continue; }
        e.push(b' '); e.extend_from_slice(f); if *v { e.push(x); }
        c = if mode == 1 { c } else { b'1' + (i as u8 % 9) };
    }
    s.argv = vec![];
    for _ in 0..n(a, 1) { let mut b = vec![0u8; n(a, 2)]; sym::bytes(&mut b, nm!("argument")); nonzero(&b); e.push(b' '); e.extend_from_slice(&b); s.argv.push(b); }
    unsafe { WANT = e; }
    p().on_open = Some(invoked);
    check!(plain().open(&s) == OPEN_OK, "the plugin did not open");
}

// ------------------------------------------------------------------ hostile
const SHAPES: &[&[u8]] = &[b"\xc3\xa9\xc3\xa9\xc3\xa9", b"a\xe2\x82\xac\xe2\x82\xac", b"\xf0\x9d\x84\x9e\xf0\x9d\x84\x9e", b"-1", b"0x1f", b"1e9", b"0,,0", b"1.2.3.4", b"18446744073709551616", b"340282366920938463463374607431768211456", b"/../..//.", b"%s%n%d%C", b"=a=b=c=", b"true ", b"the quick brown fox jumps over the lazy d\xc3\xb6g and keeps going for a while"];
/// Any value of any setting: sudo gets an answer, and nothing breaks.
/// args: list (0 settings, 1 user, 2 command, 3 options), bytes, with key (0: raw entry,
/// 2: one of SHAPES with as many bytes replaced as given)
pub fn hostile(a: &[&'static str]) {
    base_world(b"y");
    let mut s = Sess::base();
    let k = n(a, 1);
    let mut v = vec![0u8; k]; sym::bytes(&mut v, nm!("value")); nonzero(&v);
    if n(a, 2) == 2 {
        let mut x = SHAPES[sym::fork(SHAPES.len() as u32, nm!("shape")) as usize].to_vec();
        for b in &v { let i = [0, 1, x.len() / 2, x.len() - 1][sym::fork(4, nm!("where")) as usize]; x[i] = *b; }
        v = x;
    }
    let t: &[F] = match n(a, 0) { 0 => SETTINGS, 1 => USER, 2 => COMMAND, _ => &[(b"binary_path", K::P), (b"user_prompt_path", K::P), (b"pair_prompt_path", K::P), (b"socket_dir", K::P), (b"gids_enforced", K::Gids), (b"gids_exempted", K::Gids)] };
    let l = match n(a, 0) { 0 => &mut s.settings, 1 => &mut s.user, 2 => &mut s.cmd, _ => &mut s.opts };
    if n(a, 2) > 0 { let i = sym::fork(t.len() as u32 + (n(a, 0) == 0) as u32, nm!("setting")) as usize; let key = if i == t.len() { b"network_addrs" } else { t[i].0 }; put(l, key, &v); }
    else { l.push(v); }
    let pl = Plugin::pair();
    let r = pl.open(&s);
    check!(r == OPEN_OK || r == OPEN_DENY, "open returned something sudo does not expect");
    if r == OPEN_OK { cover!("accepted"); let q = pl.log(TTYOUT, b"x"); check!(q == LOG_OK, "output was refused"); pl.winsize(1, 1); pl.log(STDIN, b"x"); } else { cover!("refused"); check!(w().perr > 0, "the user was not told why"); }
    pl.close(0, 0);
    check!(w().open_fds() == 0 && w().live_socks() == 0, "something is left behind");
    check!(w().umask == 0o022, "the umask was not restored");
}
