//! Hash-consed bit-vector expressions over symbolic input bytes.
use std::collections::HashMap;

pub type E = u32;
pub const MAXV: usize = 512;
pub type VSet = [u64; MAXV / 64];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum C { Eq, Ult, Ule, Slt, Sle }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Var(u32),
    Bin(B, E, E),
    Cmp(C, E, E),
    Not(E),
    Ite(E, E, E),
    Concat(E, E), // hi, lo
    Extract(u32, u32, E), // hi, lo
    ZExt(E),
    SExt(E),
}

pub struct Node { pub n: N, pub w: u32, pub vars: VSet, pub max: u128 }

pub struct Ctx { pub nodes: Vec<Node>, map: HashMap<(N, u32), E> }

static mut CTX: Option<Ctx> = None;
#[allow(static_mut_refs)]
pub fn cx() -> &'static mut Ctx {
    unsafe { if CTX.is_none() { CTX = Some(Ctx { nodes: Vec::new(), map: HashMap::new() }); } CTX.as_mut().unwrap() }
}
pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

pub fn node(e: E) -> &'static Node { &cx().nodes[e as usize] }
pub fn width(e: E) -> u32 { node(e).w }
pub fn as_const(e: E) -> Option<u128> { if let N::Const(c) = node(e).n { Some(c) } else { None } }

fn mk(n: N, w: u32) -> E {
    let c = cx();
    if let Some(&e) = c.map.get(&(n, w)) { return e; }
    let g = |e: E| &c.nodes[e as usize];
    let mut vars: VSet = [0; MAXV / 64];
    let mut un = |e: E| for i in 0..vars.len() { vars[i] |= c.nodes[e as usize].vars[i]; };
    let m = mask(w);
    let max = match n {
        N::Const(k) => k,
        N::Var(_) => m,
        N::Bin(op, a, b) => { un(a); un(b); let (x, y) = (g(a).max, g(b).max); match op {
            B::Add => x.checked_add(y).map_or(m, |v| v.min(m)).max(if x.checked_add(y).map_or(true, |v| v > m) { m } else { 0 }),
            B::Mul => match x.checked_mul(y) { Some(v) if v <= m => v, _ => m },
            B::And => x.min(y),
            B::UDiv => if y == 0 { m } else if let N::Const(k) = g(b).n { if k == 0 { m } else { x / k } } else { m },
            B::URem => if let N::Const(k) = g(b).n { if k == 0 { m } else { x.min(k - 1) } } else { m },
            B::LShr => x,
            B::Or | B::Xor => { let z = 128 - (x | y).leading_zeros(); mask(z) }
            _ => m } }
        N::Cmp(_, a, b) => { un(a); un(b); 1 }
        N::Not(a) => { un(a); m }
        N::Ite(k, a, b) => { un(k); un(a); un(b); g(a).max.max(g(b).max) }
        N::Concat(a, b) => { un(a); un(b); (g(a).max << g(b).w) | g(b).max }
        N::Extract(h, l, a) => { un(a); let t = g(a).max >> l; let mm = mask(h - l + 1); if t <= mm { t } else { mm } }
        N::ZExt(a) => { un(a); g(a).max }
        N::SExt(a) => { un(a); if g(a).max <= mask(g(a).w - 1) { g(a).max } else { m } }
    };
    if let N::Var(i) = n { assert!((i as usize) < MAXV, "too many symbolic bytes"); vars[i as usize / 64] |= 1 << (i % 64); }
    let e = c.nodes.len() as E;
    c.nodes.push(Node { n, w, vars, max });
    c.map.insert((n, w), e);
    e
}

pub fn cst(v: u128, w: u32) -> E { mk(N::Const(v & mask(w)), w) }
pub fn var(i: u32) -> E { mk(N::Var(i), 8) }
pub fn tt() -> E { cst(1, 1) }
pub fn ff() -> E { cst(0, 1) }

pub fn bin_c(op: B, a: u128, b: u128, w: u32) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        B::Add => a.wrapping_add(b),
        B::Sub => a.wrapping_sub(b),
        B::Mul => a.wrapping_mul(b),
        B::UDiv => if b == 0 { return None } else { a / b },
        B::URem => if b == 0 { return None } else { a % b },
        B::SDiv => if b == 0 { return None } else { sx(a, w).wrapping_div(sx(b, w)) as u128 },
        B::SRem => if b == 0 { return None } else { sx(a, w).wrapping_rem(sx(b, w)) as u128 },
        B::And => a & b, B::Or => a | b, B::Xor => a ^ b,
        B::Shl => if b >= w as u128 { 0 } else { a << b },
        B::LShr => if b >= w as u128 { 0 } else { a >> b },
        B::AShr => (sx(a, w) >> (b.min(w as u128 - 1)).min(127)) as u128,
    } & m)
}
pub fn cmp_c(op: C, a: u128, b: u128, w: u32) -> bool {
    match op { C::Eq => a == b, C::Ult => a < b, C::Ule => a <= b, C::Slt => sx(a, w) < sx(b, w), C::Sle => sx(a, w) <= sx(b, w) }
}

pub fn not(a: E) -> E {
    let w = width(a);
    match node(a).n {
        N::Const(c) => cst(!c, w),
        N::Not(x) => x,
        N::Cmp(C::Ult, x, y) if w == 1 => cmp(C::Ule, y, x),
        N::Cmp(C::Ule, x, y) if w == 1 => cmp(C::Ult, y, x),
        N::Cmp(C::Slt, x, y) if w == 1 => cmp(C::Sle, y, x),
        N::Cmp(C::Sle, x, y) if w == 1 => cmp(C::Slt, y, x),
        _ => mk(N::Not(a), w),
    }
}

/// Most significant first; `None` is a run of zero bits.
fn segs(e: E, out: &mut Vec<(u32, Option<E>)>) {
    let w = width(e);
    match node(e).n {
        N::Const(0) => out.push((w, None)),
        N::ZExt(a) => { out.push((w - width(a), None)); segs(a, out); }
        N::Concat(a, b) => { segs(a, out); segs(b, out); }
        _ => out.push((w, Some(e))),
    }
}
fn merge_disjoint(a: E, b: E) -> Option<E> {
    let (mut x, mut y) = (Vec::new(), Vec::new());
    segs(a, &mut x); segs(b, &mut y);
    if !x.iter().any(|s| s.1.is_none()) || !y.iter().any(|s| s.1.is_none()) { return None; }
    // walk both lists
    let mut res: Vec<E> = Vec::new();
    let (mut i, mut j) = (0, 0);
    let (mut ox, mut oy) = (0u32, 0u32); // consumed from the top of the current segments
    while i < x.len() && j < y.len() {
        let (rx, ry) = (x[i].0 - ox, y[j].0 - oy);
        let t = rx.min(ry);
        if t == 0 { if rx == 0 { i += 1; ox = 0; } if ry == 0 { j += 1; oy = 0; } continue; }
        let part = |s: &(u32, Option<E>), off: u32| s.1.map(|e| extract(s.0 - off - 1, s.0 - off - t, e));
        let (p, q) = (part(&x[i], ox), part(&y[j], oy));
        match (p, q) { (None, None) => res.push(cst(0, t)), (Some(p), None) => res.push(p), (None, Some(q)) => res.push(q), _ => return None }
        ox += t; oy += t;
        if ox == x[i].0 { i += 1; ox = 0; }
        if oy == y[j].0 { j += 1; oy = 0; }
    }
    let mut r = res[0];
    for &p in &res[1..] { r = concat(r, p); }
    Some(r)
}

pub fn bin(op: B, mut a: E, mut b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    let (mut ca, mut cb) = (as_const(a), as_const(b));
    if let (Some(x), Some(y)) = (ca, cb) { if let Some(r) = bin_c(op, x, y, w) { return cst(r, w); } }
    if ca.is_some() && matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor) { std::mem::swap(&mut a, &mut b); std::mem::swap(&mut ca, &mut cb); }
    let m = mask(w);
    match op {
        B::Add => {
            if cb == Some(0) { return a; }
            if w == 1 { return bin(B::Xor, a, b); }
            if let (Some(k), N::Bin(B::Add, x, y)) = (cb, node(a).n) { if let Some(k2) = as_const(y) { return bin(B::Add, x, cst(k.wrapping_add(k2), w)); } }
        }
        B::Sub => {
            if cb == Some(0) { return a; }
            if a == b { return cst(0, w); }
            if let Some(k) = cb { return bin(B::Add, a, cst(0u128.wrapping_sub(k), w)); }
        }
        B::Mul => {
            if cb == Some(0) { return cst(0, w); }
            if cb == Some(1) { return a; }
            if let Some(k) = cb { if k.is_power_of_two() { return bin(B::Shl, a, cst(k.trailing_zeros() as u128, w)); } }
        }
        B::And => {
            if cb == Some(0) { return cst(0, w); }
            if cb == Some(m) || a == b { return a; }
            if let Some(k) = cb {
                let (lo, n) = (k.trailing_zeros(), k.count_ones());
                if (k >> lo) == mask(n) {
                    let mut r = extract(lo + n - 1, lo, a);
                    if lo > 0 { r = concat(r, cst(0, lo)); }
                    return zext(r, w);
                }
            }
        }
        B::Or => {
            if cb == Some(0) || a == b { return a; }
            if cb == Some(m) { return b; }
            if w > 1 { if let Some(r) = merge_disjoint(a, b) { return r; } }
        }
        B::Xor => {
            if cb == Some(0) { return a; }
            if a == b { return cst(0, w); }
            if cb == Some(m) { return not(a); }
        }
        B::Shl => if let Some(k) = cb {
            if k == 0 { return a; }
            if k >= w as u128 { return cst(0, w); }
            return concat(extract(w - 1 - k as u32, 0, a), cst(0, k as u32));
        }
        B::LShr => if let Some(k) = cb {
            if k == 0 { return a; }
            if k >= w as u128 { return cst(0, w); }
            return zext(extract(w - 1, k as u32, a), w);
        }
        B::AShr => if let Some(k) = cb {
            if k == 0 { return a; }
            let k = (k as u32).min(w - 1);
            return sext(extract(w - 1, k, a), w);
        }
        B::UDiv => if let Some(k) = cb { if k == 1 { return a; } if k.is_power_of_two() { return bin(B::LShr, a, cst(k.trailing_zeros() as u128, w)); } }
        B::URem => if let Some(k) = cb { if k.is_power_of_two() { return bin(B::And, a, cst(k - 1, w)); } }
        _ => {}
    }
    mk(N::Bin(op, a, b), w)
}

pub fn cmp(op: C, mut a: E, mut b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    let (mut ca, mut cb) = (as_const(a), as_const(b));
    if let (Some(x), Some(y)) = (ca, cb) { return cst(cmp_c(op, x, y, w) as u128, 1); }
    if a == b { return cst(matches!(op, C::Eq | C::Ule | C::Sle) as u128, 1); }
    match op {
        C::Eq => {
            if ca.is_some() { std::mem::swap(&mut a, &mut b); std::mem::swap(&mut ca, &mut cb); }
            if let Some(k) = cb {
                if k > node(a).max { return ff(); }
                if w == 1 { return if k == 1 { a } else { not(a) }; }
                match node(a).n {
                    N::ZExt(x) => { let xw = width(x); return if k >> xw != 0 { ff() } else { cmp(C::Eq, x, cst(k, xw)) }; }
                    N::Concat(h, l) => { let lw = width(l);
                        let p = cmp(C::Eq, h, cst(k >> lw, width(h)));
                        let q = cmp(C::Eq, l, cst(k, lw));
                        return bin(B::And, p, q); }
                    N::Ite(c, x, y) if as_const(x).is_some() || as_const(y).is_some() => {
                        let p = cmp(C::Eq, x, b); let q = cmp(C::Eq, y, b); return ite(c, p, q); }
                    N::Bin(B::Add, x, y) => if let Some(k2) = as_const(y) { return cmp(C::Eq, x, cst(k.wrapping_sub(k2), w)); },
                    N::Bin(B::Xor, x, y) => { if k == 0 { return cmp(C::Eq, x, y); } if let Some(k2) = as_const(y) { return cmp(C::Eq, x, cst(k ^ k2, w)); } }
                    N::Not(x) => return cmp(C::Eq, x, cst(!k, w)),
                    N::Bin(B::Or, x, y) if k == 0 => { let z = cst(0, w); let p = cmp(C::Eq, x, z); let q = cmp(C::Eq, y, z); return bin(B::And, p, q); }
                    N::SExt(x) => { let xw = width(x); let t = cst(k, xw); return if sx(k & mask(xw), xw) as u128 & mask(w) == k { cmp(C::Eq, x, t) } else { ff() }; }
                    _ => {}
                }
            } else {
                if let (N::ZExt(x), N::ZExt(y)) = (node(a).n, node(b).n) { if width(x) == width(y) { return cmp(C::Eq, x, y); } }
                if let (N::Concat(h1, l1), N::Concat(h2, l2)) = (node(a).n, node(b).n) { if width(l1) == width(l2) {
                    let p = cmp(C::Eq, h1, h2); let q = cmp(C::Eq, l1, l2); return bin(B::And, p, q); } }
                if a > b { std::mem::swap(&mut a, &mut b); }
            }
        }
        C::Ult => {
            if cb == Some(0) || ca == Some(mask(w)) { return ff(); }
            if let Some(k) = cb { if node(a).max < k { return tt(); } if k == 1 { return cmp(C::Eq, a, cst(0, w)); } }
            if let Some(k) = ca { if node(b).max <= k { return ff(); } if k == 0 { let z = cmp(C::Eq, b, a); return not(z); } }
        }
        C::Ule => {
            if ca == Some(0) || cb == Some(mask(w)) { return tt(); }
            if let Some(k) = cb { if node(a).max <= k { return tt(); } if k == 0 { return cmp(C::Eq, a, b); } }
            if let Some(k) = ca { if node(b).max < k { return ff(); } }
        }
        C::Slt | C::Sle => {
            // both provably non-negative
            let h = mask(w - 1);
            if w > 1 && node(a).max <= h && node(b).max <= h { return cmp(if op == C::Slt { C::Ult } else { C::Ule }, a, b); }
        }
    }
    if matches!(op, C::Ult | C::Ule) {
        let strip = |e: E| match node(e).n { N::ZExt(x) => Some(x), _ => None };
        match (strip(a), strip(b), as_const(a), as_const(b)) {
            (Some(x), Some(y), _, _) if width(x) == width(y) => return cmp(op, x, y),
            (Some(x), _, _, Some(k)) if k <= mask(width(x)) => return cmp(op, x, cst(k, width(x))),
            (_, Some(y), Some(k), _) if k <= mask(width(y)) => return cmp(op, cst(k, width(y)), y),
            _ => {}
        }
    }
    mk(N::Cmp(op, a, b), 1)
}

pub fn ite(c: E, a: E, b: E) -> E {
    if let Some(k) = as_const(c) { return if k == 1 { a } else { b }; }
    if a == b { return a; }
    if let N::Not(x) = node(c).n { return ite(x, b, a); }
    let w = width(a);
    if w == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return bin(B::Or, c, b),
            (Some(0), None) => { let n = not(c); return bin(B::And, n, b); }
            (None, Some(0)) => return bin(B::And, c, a),
            (None, Some(1)) => { let n = not(c); return bin(B::Or, n, a); }
            _ => {}
        }
    }
    mk(N::Ite(c, a, b), w)
}

pub fn concat(a: E, b: E) -> E {
    let (wa, wb) = (width(a), width(b));
    match (node(a).n, node(b).n) {
        (N::Const(x), N::Const(y)) => return cst(x << wb | y, wa + wb),
        (N::Const(0), _) => return zext(b, wa + wb),
        (N::Extract(h1, l1, x), N::Extract(h2, l2, y)) if x == y && l1 == h2 + 1 => return extract(h1, l2, x),
        (N::ZExt(x), _) => { let r = concat(x, b); return zext(r, wa + wb); }
        (N::Extract(h1, l1, x), N::Concat(m, r)) => if let N::Extract(h2, l2, y) = node(m).n { if x == y && l1 == h2 + 1 { let t = extract(h1, l2, x); return concat(t, r); } },
        (N::Concat(p, q), _) => { let t = concat(q, b); return concat(p, t); }
        _ => {}
    }
    mk(N::Concat(a, b), wa + wb)
}

pub fn extract(h: u32, l: u32, a: E) -> E {
    let w = width(a);
    if l == 0 && h == w - 1 { return a; }
    let ow = h - l + 1;
    match node(a).n {
        N::Const(k) => return cst(k >> l, ow),
        N::Extract(_, l2, x) => return extract(h + l2, l + l2, x),
        N::ZExt(x) => { let xw = width(x);
            if l >= xw { return cst(0, ow); }
            if h < xw { return extract(h, l, x); }
            let t = extract(xw - 1, l, x); return zext(t, ow); }
        N::SExt(x) => { let xw = width(x); if h < xw { return extract(h, l, x); } if l < xw { let t = extract(xw - 1, l, x); return sext(t, ow); } }
        N::Concat(p, q) => { let qw = width(q);
            if l >= qw { return extract(h - qw, l - qw, p); }
            if h < qw { return extract(h, l, q); }
            let t = extract(h - qw, 0, p); let u = extract(qw - 1, l, q); return concat(t, u); }
        N::Bin(op @ (B::And | B::Or | B::Xor), x, y) => { let p = extract(h, l, x); let q = extract(h, l, y); return bin(op, p, q); }
        N::Bin(op @ (B::Add | B::Sub | B::Mul), x, y) if l == 0 => { let p = extract(h, l, x); let q = extract(h, l, y); return bin(op, p, q); }
        N::Not(x) => { let p = extract(h, l, x); return not(p); }
        N::Ite(c, x, y) => { let p = extract(h, l, x); let q = extract(h, l, y); return ite(c, p, q); }
        _ => {}
    }
    mk(N::Extract(h, l, a), ow)
}
pub fn zext(a: E, w: u32) -> E {
    let aw = width(a);
    if aw == w { return a; }
    match node(a).n { N::Const(k) => cst(k, w), N::ZExt(x) => zext(x, w), _ => mk(N::ZExt(a), w) }
}
pub fn sext(a: E, w: u32) -> E {
    let aw = width(a);
    if aw == w { return a; }
    match node(a).n {
        N::Const(k) => cst(sx(k, aw) as u128, w),
        N::ZExt(_) => zext(a, w),
        N::SExt(x) => sext(x, w),
        _ => mk(N::SExt(a), w),
    }
}

/// Value of `e` under `model` (missing bytes are 0).
pub fn eval(e: E, model: &[u8], memo: &mut HashMap<E, u128>) -> u128 {
    if let N::Const(k) = node(e).n { return k; }
    if let Some(&v) = memo.get(&e) { return v; }
    let nd = node(e);
    let w = nd.w;
    let v = match nd.n {
        N::Const(k) => k,
        N::Var(i) => model.get(i as usize).copied().unwrap_or(0) as u128,
        N::Bin(op, a, b) => { let (x, y) = (eval(a, model, memo), eval(b, model, memo));
            bin_c(op, x, y, w).unwrap_or_else(|| match op { // SMT-LIB semantics of division by zero
                B::UDiv => mask(w), B::URem | B::SRem => x, B::SDiv => if sx(x, w) < 0 { 1 } else { mask(w) }, _ => unreachable!() }) }
        N::Cmp(op, a, b) => cmp_c(op, eval(a, model, memo), eval(b, model, memo), width(a)) as u128,
        N::Not(a) => !eval(a, model, memo) & mask(w),
        N::Ite(c, a, b) => if eval(c, model, memo) == 1 { eval(a, model, memo) } else { eval(b, model, memo) },
        N::Concat(a, b) => eval(a, model, memo) << width(b) | eval(b, model, memo),
        N::Extract(h, l, a) => (eval(a, model, memo) >> l) & mask(h - l + 1),
        N::ZExt(a) => eval(a, model, memo),
        N::SExt(a) => sx(eval(a, model, memo), width(a)) as u128 & mask(w),
    };
    memo.insert(e, v);
    v
}
pub fn evalb(e: E, model: &[u8]) -> bool { eval(e, model, &mut HashMap::new()) == 1 }
