//! Path-forking symbolic execution of LLVM IR.
use crate::expr::{self, *};
use crate::ir::{self, *};
use crate::solver::{slice, Solver, R};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;

const STACK_BASE: u64 = 0x2000_0000_0000;
const HEAP_BASE: u64 = 0x3000_0000_0000;

#[derive(Clone)]
pub struct Obj { size: u64, data: Vec<u8>, sym: Option<Box<BTreeMap<u32, E>>>, ro: bool }

#[derive(Clone)]
struct Frame { f: Rc<Func>, bb: u32, ip: u32, regs: Vec<V>, sp: usize, lp: Option<(V, u64)> }

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    heap: Vec<Option<Rc<Obj>>>,
    stack: Vec<Rc<Obj>>,
    globs: HashMap<u32, Rc<Obj>>,
    pub pc: Vec<E>,
    pub model: Vec<u8>,
    pub nvars: u32,
    pub names: Vec<(Rc<str>, u32)>,
    steps: u64,
    depth: u32,
    log: Vec<Rc<str>>,
}

/// Why a path stopped.
#[derive(Clone, Debug, PartialEq)]
pub enum Stop { Done, Assume, Failed, Bad(String), Limit(String) }

pub struct Violation { pub id: String, pub model: Vec<u8>, pub names: Vec<(Rc<str>, u32)>, pub log: Vec<Rc<str>>, pub trace: Vec<String> }

#[derive(Default, Clone)]
pub struct CheckStat { pub hit: u64, pub trivial: u64, pub solver: u64, pub failed: u64 }

#[derive(Clone, Copy, PartialEq, Debug)]
enum X {
    None, Ignore, Memcpy, Memset, Abs, Smax, Smin, Umax, Umin, Ucmp, Scmp, UaddSat, UsubSat, SaddSat, SsubSat,
    UaddO, SaddO, UsubO, SsubO, UmulO, SmulO, Bswap, Bitrev, Ctlz, Cttz, Ctpop, Fshl, Fshr, IsConst, Tls, Trap, Expect, Objsize, RedOr, RedAnd, RedAdd, Pmovmskb,
    Malloc, Calloc, Realloc, Free, PosixMemalign, Memcmp, Strlen, Memchr, Memrchr, Abort, Exit, Raise, RetZero, RetFive, RetOne, Getrandom, Syscall, KeyCreate,
    SymU8, SymBytes, SymAssume, SymCheck, SymCover, SymPick, SymStop, SymLimit, SymLog, SymEngine, SymFork, SymIsSym,
}

pub struct Exec {
    pub m: Box<Module>,
    pub sol: Solver,
    pub work: Vec<State>,
    consts: HashMap<u32, Rc<Obj>>,
    slot2glob: HashMap<u64, u32>,
    ext: Vec<Option<X>>,
    pub viol: Vec<Violation>,
    pub bad: BTreeMap<String, u64>,
    pub limits: BTreeMap<String, u64>,
    pub checks: BTreeMap<String, CheckStat>,
    pub covers: BTreeMap<String, u64>,
    pub cover_model: BTreeMap<String, Vec<u8>>,
    pub paths: u64, pub done: u64, pub assumed: u64, pub failed: u64, pub steps: u64, pub forks: u64, pub maxdepth: u32,
    pub fcov: Vec<bool>,
    pub dbgcov: Vec<bool>,
    pub max_steps: u64,
    pub deadline: Option<Instant>,
    pub max_viol: usize,
    pub fork_at: HashMap<(u32, u32, u32), u64>,
    pub trace: bool,
    pub stop_at_violation: bool,
    /// Once something is violated, how much longer to look for more.
    pub grace: Option<std::time::Duration>,
}

type Rs<T> = Result<T, Stop>;
fn bad<T>(s: impl Into<String>) -> Rs<T> { Err(Stop::Bad(s.into())) }
fn limit<T>(s: impl Into<String>) -> Rs<T> { Err(Stop::Limit(s.into())) }

fn to_e(v: &V, w: u32) -> E { match v { V::I(x) => cst(*x as u128, w), V::W(x) => cst(**x, w), V::S(e) => { debug_assert_eq!(width(*e), w); *e } V::A(vs) => { // vector as an integer
    let n = vs.len() as u32; let ew = w / n; let mut r = to_e(&vs[0], ew); for x in &vs[1..] { let h = to_e(x, ew); r = concat(h, r); } r } } }
fn from_e(e: E) -> V { match as_const(e) { Some(k) => if width(e) > 64 { V::W(Rc::new(k)) } else { V::I(k as u64) }, None => V::S(e) } }
fn cint(v: u128, w: u32) -> V { let v = v & mask(w); if w > 64 { V::W(Rc::new(v)) } else { V::I(v as u64) } }
fn cval(v: &V) -> Option<u128> { match v { V::I(x) => Some(*x as u128), V::W(x) => Some(**x), _ => None } }

/// The heap slot of the object that an address belongs to, and the offset in
/// it: an object larger than a slot has several.
fn heap_at(st: &State, a: u64) -> (usize, u64) {
    let i = ((a - HEAP_BASE) / SLOT) as usize; let off = a & (SLOT - 1);
    if let Some(None) = st.heap.get(i) {
        for k in 1..=(64.min(i)) { if let Some(Some(o)) = st.heap.get(i - k) { let off = off + k as u64 * SLOT; return if off <= o.size && o.size >= SLOT { (i - k, off) } else { (i, a & (SLOT - 1)) }; } }
    }
    (i, off)
}

impl Exec {
    pub fn new(m: Box<Module>, timeout_ms: u32) -> Self {
        let n = m.fns.len();
        let slot2glob = m.globs.iter().enumerate().flat_map(|(i, g)| { let s = (g.addr - GLOB_BASE) / SLOT; (s..=s + g.size / SLOT).map(move |k| (k, i as u32)) }).collect();
        Exec { m, sol: Solver::new(timeout_ms), work: vec![], consts: HashMap::new(), slot2glob, ext: vec![None; n], viol: vec![], bad: BTreeMap::new(), limits: BTreeMap::new(), checks: BTreeMap::new(), covers: BTreeMap::new(), cover_model: BTreeMap::new(),
            paths: 0, done: 0, assumed: 0, failed: 0, steps: 0, forks: 0, maxdepth: 0, fcov: vec![false; n], dbgcov: vec![], max_steps: 50_000_000, deadline: None, max_viol: 3, fork_at: HashMap::new(), trace: false, stop_at_violation: false, grace: None }
    }

    // ---------------------------------------------------------------- memory
    fn glob_obj(&mut self, g: u32) -> Rs<Rc<Obj>> {
        if let Some(o) = self.consts.get(&g) { return Ok(o.clone()); }
        let data = self.m.init(g as usize).map_err(Stop::Limit)?;
        let ge = &self.m.globs[g as usize];
        let o = Rc::new(Obj { size: ge.size, data, sym: None, ro: ge.konst });
        self.consts.insert(g, o.clone());
        Ok(o)
    }
    fn find(&mut self, st: &State, a: u64, n: u64) -> Rs<(Rc<Obj>, u64)> {
        let r = self.find0(st, a)?;
        if r.1 + n > r.0.size { return bad(format!("memory access of {n} bytes at offset {} of an object of {} bytes", r.1, r.0.size)); }
        Ok(r)
    }
    fn find0(&mut self, st: &State, a: u64) -> Rs<(Rc<Obj>, u64)> {
        let off = a & (SLOT - 1);
        match a >> 44 {
            1 => { let s = (a - GLOB_BASE) / SLOT;
                match self.slot2glob.get(&s) { Some(&g) => { let off = a - self.m.globs[g as usize].addr; if let Some(o) = st.globs.get(&g) { Ok((o.clone(), off)) } else { Ok((self.glob_obj(g)?, off)) } } None => bad(format!("wild pointer {a:#x}")) } }
            2 => { let i = ((a - STACK_BASE) / SLOT) as usize; match st.stack.get(i) { Some(o) => Ok((o.clone(), off)), None => bad("access to a dead stack slot") } }
            3 => { let (i, off) = heap_at(st, a); match st.heap.get(i) { Some(Some(o)) => Ok((o.clone(), off)), Some(None) => bad("use after free"), None => bad(format!("wild pointer {a:#x}")) } }
            _ => bad(if a < 4096 { "null pointer access".to_string() } else { format!("wild pointer {a:#x}") }),
        }
    }
    fn find_mut<'a>(&mut self, st: &'a mut State, a: u64, n: u64) -> Rs<(&'a mut Obj, u64)> {
        let off = a & (SLOT - 1);
        let (o, off) = match a >> 44 {
            1 => { let s = (a - GLOB_BASE) / SLOT;
                match self.slot2glob.get(&s) { Some(&g) => {
                    if !st.globs.contains_key(&g) { let o = self.glob_obj(g)?; if o.ro { return bad("write to a constant"); } st.globs.insert(g, o); }
                    let ba = self.m.globs[g as usize].addr;
                    (st.globs.get_mut(&g).unwrap(), a - ba) } None => return bad(format!("wild pointer {a:#x}")) } }
            2 => { let i = ((a - STACK_BASE) / SLOT) as usize; match st.stack.get_mut(i) { Some(o) => (o, off), None => return bad("write to a dead stack slot") } }
            3 => { let (i, off) = heap_at(st, a); match st.heap.get_mut(i) { Some(Some(o)) => (o, off), Some(None) => return bad("use after free"), None => return bad(format!("wild pointer {a:#x}")) } }
            _ => return bad(if a < 4096 { "null pointer access".to_string() } else { format!("wild pointer {a:#x}") }),
        };
        if off + n > o.size { return bad(format!("memory write of {n} bytes at offset {off} of an object of {} bytes", o.size)); }
        Ok((Rc::make_mut(o), off))
    }
    fn ldb(o: &Obj, off: u64) -> Result<u8, E> { if let Some(s) = &o.sym { if let Some(&e) = s.get(&(off as u32)) { return Err(e); } } Ok(o.data[off as usize]) }
    fn load_bits(&mut self, st: &State, a: u64, n: u64, w: u32) -> Rs<V> {
        let (o, off) = self.find(st, a, n)?;
        let clean = match &o.sym { None => true, Some(s) => s.range(off as u32..(off + n) as u32).next().is_none() };
        if clean {
            let mut v: u128 = 0;
            for i in 0..n { v |= (o.data[(off + i) as usize] as u128) << (8 * i); }
            return Ok(cint(v, w));
        }
        let mut e: Option<E> = None;
        for i in 0..n { let b = match Self::ldb(&o, off + i) { Ok(k) => cst(k as u128, 8), Err(e) => e }; e = Some(match e { None => b, Some(l) => concat(b, l) }); }
        let e = e.unwrap();
        let e = if width(e) > w { extract(w - 1, 0, e) } else { e };
        Ok(from_e(e))
    }
    fn load(&mut self, st: &State, t: &Ty, a: u64) -> Rs<V> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::Fp(_) => self.load_bits(st, a, t.store(), t.bits()),
            Ty::Vec(n, e) => {
                if e.bits() % 8 != 0 { let w = t.bits(); let v = self.load_bits(st, a, t.store(), w)?; return Ok(Self::int_to_vec(&v, *n, e.bits())); }
                let mut v = vec![]; for i in 0..*n as u64 { v.push(self.load_bits(st, a + i * e.store(), e.store(), e.bits())?); } Ok(V::A(Rc::new(v))) }
            Ty::Arr(n, e) => { let mut v = vec![]; for i in 0..*n { v.push(self.load(st, e, a + i * e.size())?); } Ok(V::A(Rc::new(v))) }
            Ty::Struct(f, _) => { let mut v = vec![]; for i in 0..f.len() { let (o, ft) = t.field(i as u64); v.push(self.load(st, &ft, a + o)?); } Ok(V::A(Rc::new(v))) }
            _ => limit("load type"),
        }
    }
    fn int_to_vec(v: &V, n: u32, ew: u32) -> V {
        let w = n * ew; let e = to_e(v, w);
        V::A(Rc::new((0..n).map(|i| from_e(extract(i * ew + ew - 1, i * ew, e))).collect()))
    }
    fn store_bits(&mut self, st: &mut State, a: u64, n: u64, v: &V, w: u32) -> Rs<()> {
        let (o, off) = self.find_mut(st, a, n)?;
        match v {
            V::I(_) | V::W(_) => { let k = cval(v).unwrap();
                for i in 0..n { o.data[(off + i) as usize] = (k >> (8 * i)) as u8; }
                if let Some(s) = &mut o.sym { for i in 0..n { s.remove(&((off + i) as u32)); } if s.is_empty() { o.sym = None; } } }
            _ => { let mut e = to_e(v, w);
                if (n * 8) as u32 != w { e = zext(e, (n * 8) as u32); }
                for i in 0..n { let b = extract((8 * i + 7) as u32, (8 * i) as u32, e); Self::set_byte(o, off + i, b); } }
        }
        Ok(())
    }
    fn set_byte(o: &mut Obj, off: u64, b: E) {
        match as_const(b) {
            Some(k) => { o.data[off as usize] = k as u8; if let Some(s) = &mut o.sym { s.remove(&(off as u32)); if s.is_empty() { o.sym = None; } } }
            None => { o.sym.get_or_insert_with(Default::default).insert(off as u32, b); }
        }
    }
    fn store(&mut self, st: &mut State, t: &Ty, a: u64, v: &V) -> Rs<()> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::Fp(_) => self.store_bits(st, a, t.store(), v, t.bits()),
            Ty::Vec(n, e) => {
                if e.bits() % 8 != 0 { let w = t.bits(); let x = to_e(v, w); return self.store_bits(st, a, t.store(), &from_e(x), w); }
                if let V::A(vs) = v { for i in 0..*n as u64 { self.store_bits(st, a + i * e.store(), e.store(), &vs[i as usize], e.bits())?; } Ok(()) } else { limit("vector store") } }
            Ty::Arr(n, e) => if let V::A(vs) = v { for i in 0..*n { self.store(st, e, a + i * e.size(), &vs[i as usize])?; } Ok(()) } else { limit("array store") },
            Ty::Struct(f, _) => if let V::A(vs) = v { for i in 0..f.len() { let (o, ft) = t.field(i as u64); self.store(st, &ft, a + o, &vs[i])?; } Ok(()) } else { limit("struct store") },
            _ => limit("store type"),
        }
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> Rs<()> {
        if n == 0 { return Ok(()); }
        let (so, soff) = self.find(st, s, n)?;
        let bytes: Vec<u8> = so.data[soff as usize..(soff + n) as usize].to_vec();
        let syms: Vec<(u32, E)> = so.sym.as_ref().map_or(vec![], |m| m.range(soff as u32..(soff + n) as u32).map(|(k, e)| (k - soff as u32, *e)).collect());
        drop(so);
        let (o, off) = self.find_mut(st, d, n)?;
        o.data[off as usize..(off + n) as usize].copy_from_slice(&bytes);
        if let Some(m) = &mut o.sym { let ks: Vec<u32> = m.range(off as u32..(off + n) as u32).map(|(k, _)| *k).collect(); for k in ks { m.remove(&k); } if m.is_empty() { o.sym = None; } }
        if !syms.is_empty() { let m = o.sym.get_or_insert_with(Default::default); for (k, e) in syms { m.insert(k + off as u32, e); } }
        Ok(())
    }
    fn alloc(&mut self, st: &mut State, n: u64) -> Rs<u64> {
        if n > 64 * SLOT { return limit(format!("allocation of {n} bytes")); }
        let i = st.heap.len() as u64;
        st.heap.push(Some(Rc::new(Obj { size: n, data: vec![0; n as usize], sym: None, ro: false })));
        for _ in 0..n / SLOT { st.heap.push(None); }
        Ok(HEAP_BASE + i * SLOT)
    }
    fn byte(&mut self, st: &State, a: u64) -> Rs<E> { let (o, off) = self.find(st, a, 1)?; Ok(match Self::ldb(&o, off) { Ok(k) => cst(k as u128, 8), Err(e) => e }) }
    fn cstr(&mut self, st: &State, a: u64) -> Rs<String> {
        let mut v = vec![]; let mut p = a;
        loop { let b = self.byte(st, p)?; match as_const(b) { Some(0) => break, Some(k) => v.push(k as u8), None => v.push(b'?') } p += 1; }
        Ok(String::from_utf8_lossy(&v).into_owned())
    }

    // ---------------------------------------------------------------- solving
    fn feasible(&mut self, st: &State, c: E) -> Rs<Option<Vec<u8>>> {
        if as_const(c) == Some(0) { return Ok(None); }
        if as_const(c) == Some(1) || evalb(c, &st.model) { return Ok(Some(st.model.clone())); }
        match self.sol.check(&slice(&st.pc, c)) {
            R::Sat(m) => { let mut v = st.model.clone(); for (i, b) in m { if v.len() <= i as usize { v.resize(i as usize + 1, 0); } v[i as usize] = b; } Ok(Some(v)) }
            R::Unsat => Ok(None),
            R::Unknown => limit("solver gave no answer"),
        }
    }
    fn add(st: &mut State, c: E, model: Vec<u8>) { if as_const(c).is_none() && !st.pc.contains(&c) {
        // keep conjunctions flat so that slicing can separate them
        let mut todo = vec![c];
        while let Some(x) = todo.pop() { match node(x).n { N::Bin(B::And, a, b) if width(x) == 1 => { todo.push(a); todo.push(b); } _ => if !st.pc.contains(&x) { st.pc.push(x) } } }
    } st.model = model; }

    /// Case split: the conditions must be exhaustive under the path condition.
    /// Returns the index this state continues with; the others are queued with `apply`.
    fn split(&mut self, st: &mut State, cs: &[E], mut apply: impl FnMut(&mut State, usize)) -> Rs<usize> {
        let mut feas: Vec<(usize, Vec<u8>)> = vec![];
        for (i, &c) in cs.iter().enumerate() { if let Some(m) = self.feasible(st, c)? { feas.push((i, m)); if as_const(c) == Some(1) { break; } } }
        if feas.is_empty() { return Err(Stop::Limit("case split without a feasible case".into())); }
        if feas.len() > 1 {
            let fr = st.frames.last().unwrap();
            *self.fork_at.entry((fr.f.id, fr.bb, fr.ip)).or_insert(0) += feas.len() as u64 - 1;
            self.forks += feas.len() as u64 - 1; st.depth += 1; self.maxdepth = self.maxdepth.max(st.depth);
        }
        let only = feas.len() == 1;
        for (i, m) in feas.iter().skip(1).rev() { let mut s2 = st.clone(); Self::add(&mut s2, cs[*i], m.clone()); apply(&mut s2, *i); self.work.push(s2); }
        let (i, m) = feas.swap_remove(0);
        if only { st.model = m; } else { Self::add(st, cs[i], m); }
        Ok(i)
    }
    /// All values `e` can take (at most `max`).
    fn values(&mut self, st: &State, e: E, max: usize) -> Rs<Vec<u64>> {
        let w = width(e);
        let mut out: Vec<u64> = vec![];
        let mut excl = vec![];
        loop {
            let mut c = tt(); for &x in &excl { c = bin(B::And, c, x); }
            let m = match self.feasible(st, c)? { Some(m) => m, None => break };
            let v = eval(e, &m, &mut HashMap::new()) as u64;
            out.push(v);
            if out.len() > max { return limit(format!("more than {max} values for a symbolic address or size")); }
            let q = cmp(C::Eq, e, cst(v as u128, w)); excl.push(not(q));
        }
        out.sort_unstable();
        Ok(out)
    }
    /// Make an operand concrete, forking one state per value.
    fn conc(&mut self, st: &mut State, op: &Op, w: u32, max: usize) -> Rs<u64> {
        match self.opv(st, op) {
            V::I(k) => Ok(k),
            V::S(e) => {
                let vals = self.values(st, e, max)?;
                let cs: Vec<E> = vals.iter().map(|&v| cmp(C::Eq, e, cst(v as u128, w))).collect();
                let r = if let Op::R(r) = op { *r as usize } else { return limit("symbolic constant") };
                let k = self.split(st, &cs, |s, i| s.frames.last_mut().unwrap().regs[r] = V::I(vals[i]))?;
                st.frames.last_mut().unwrap().regs[r] = V::I(vals[k]);
                Ok(vals[k])
            }
            _ => limit("aggregate where an integer was expected"),
        }
    }

    // ---------------------------------------------------------------- values
    #[inline]
    fn opv(&self, st: &State, op: &Op) -> V { match op { Op::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(), Op::K(v) => v.clone() } }
    fn bin(&self, k: B, t: &Ty, a: &V, b: &V) -> Rs<V> {
        if let Ty::Vec(n, et) = t { return match (a, b) { (V::A(x), V::A(y)) => { let mut v = vec![]; for i in 0..*n as usize { v.push(self.bin(k, et, &x[i], &y[i])?); } Ok(V::A(Rc::new(v))) } _ => limit("vector operand") }; }
        let w = t.bits();
        if w > 128 { return limit("integers wider than 128 bits"); }
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y); let m = mask(w) as u64;
            let r = match k { B::Add => Some(x.wrapping_add(y)), B::Sub => Some(x.wrapping_sub(y)), B::Mul => Some(x.wrapping_mul(y)), B::And => Some(x & y), B::Or => Some(x | y), B::Xor => Some(x ^ y), B::Shl if y < w as u64 => Some(x << y), B::LShr if y < w as u64 => Some(x >> y), _ => None };
            if let Some(r) = r { return Ok(V::I(r & m)); }
        }
        if let (Some(x), Some(y)) = (cval(a), cval(b)) { return match bin_c(k, x, y, w) { Some(r) => Ok(cint(r, w)), None => bad("division by zero") }; }
        Ok(from_e(expr::bin(k, to_e(a, w), to_e(b, w))))
    }
    fn icmp(&self, p: Pred, t: &Ty, a: &V, b: &V) -> Rs<V> {
        if let Ty::Vec(n, et) = t { return match (a, b) { (V::A(x), V::A(y)) => { let mut v = vec![]; for i in 0..*n as usize { v.push(self.icmp(p, et, &x[i], &y[i])?); } Ok(V::A(Rc::new(v))) } _ => limit("vector operand") }; }
        let w = t.bits();
        let (c, sw, neg) = match p { Pred::Eq => (C::Eq, false, false), Pred::Ne => (C::Eq, false, true), Pred::Ult => (C::Ult, false, false), Pred::Ule => (C::Ule, false, false), Pred::Ugt => (C::Ult, true, false), Pred::Uge => (C::Ule, true, false), Pred::Slt => (C::Slt, false, false), Pred::Sle => (C::Sle, false, false), Pred::Sgt => (C::Slt, true, false), Pred::Sge => (C::Sle, true, false) };
        let (a, b) = if sw { (b, a) } else { (a, b) };
        if let (Some(x), Some(y)) = (cval(a), cval(b)) { return Ok(V::I((cmp_c(c, x, y, w) ^ neg) as u64)); }
        let e = expr::cmp(c, to_e(a, w), to_e(b, w));
        Ok(from_e(if neg { not(e) } else { e }))
    }
    fn cast(&self, k: Cast, ft: &Ty, tt_: &Ty, v: &V) -> Rs<V> {
        if (matches!(tt_, Ty::Int(_)) && tt_.bits() > 128) || (matches!(ft, Ty::Int(_)) && ft.bits() > 128) { return limit("integers wider than 128 bits"); }
        match (ft, tt_) {
            (Ty::Vec(n, et), Ty::Vec(m, ft2)) if k != Cast::Bit && n == m => return match v { V::A(x) => { let mut o = vec![]; for y in x.iter() { o.push(self.cast(k, et, ft2, y)?); } Ok(V::A(Rc::new(o))) } _ => limit("vector cast") },
            (Ty::Vec(..), Ty::Vec(m, e2)) => { let i = from_e(to_e(v, ft.bits())); return Ok(Self::int_to_vec(&i, *m, e2.bits())); }
            (Ty::Vec(..), _) => { return Ok(from_e(to_e(v, ft.bits()))); }
            (_, Ty::Vec(m, e2)) => return Ok(Self::int_to_vec(v, *m, e2.bits())),
            _ => {}
        }
        let (fw, tw) = (ft.bits(), tt_.bits());
        if let Some(x) = cval(v) { return Ok(cint(if k == Cast::SExt { sx(x, fw) as u128 } else { x }, tw)); }
        let e = to_e(v, fw);
        Ok(from_e(match k { Cast::Trunc => extract(tw - 1, 0, e), Cast::ZExt => zext(e, tw), Cast::SExt => sext(e, tw), Cast::Bit => e }))
    }
    fn select(&self, t: &Ty, c: &V, a: &V, b: &V) -> Rs<V> {
        if let V::A(cs) = c { return match (a, b, t) { (V::A(x), V::A(y), Ty::Vec(_, et)) => { let mut o = vec![]; for i in 0..cs.len() { o.push(self.select(et, &cs[i], &x[i], &y[i])?); } Ok(V::A(Rc::new(o))) } _ => limit("vector select") }; }
        match c {
            V::I(k) => Ok(if *k & 1 == 1 { a.clone() } else { b.clone() }),
            V::S(e) => match (a, b) {
                (V::A(x), V::A(y)) => { let mut o = vec![]; for i in 0..x.len() { let ft = match t { Ty::Struct(f, _) => f[i].clone(), Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(), _ => return limit("select") }; o.push(self.select(&ft, c, &x[i], &y[i])?); } Ok(V::A(Rc::new(o))) }
                _ => { let w = t.bits(); Ok(from_e(ite(*e, to_e(a, w), to_e(b, w)))) }
            },
            _ => limit("select condition"),
        }
    }

    // ---------------------------------------------------------------- control
    pub fn start(&mut self, argv: &[&str]) -> Rs<()> {
        let mut st = State { frames: vec![], heap: vec![None], stack: vec![], globs: HashMap::new(), pc: vec![], model: vec![], nvars: 0, names: vec![], steps: 0, depth: 0, log: vec![] };
        let mut ptrs = vec![];
        for a in argv { let p = self.alloc(&mut st, a.len() as u64 + 1)?; for (i, c) in a.bytes().enumerate() { self.store_bits(&mut st, p + i as u64, 1, &V::I(c as u64), 8)?; } ptrs.push(p); }
        let av = self.alloc(&mut st, 8 * (ptrs.len() as u64 + 1))?;
        for (i, p) in ptrs.iter().enumerate() { self.store_bits(&mut st, av + 8 * i as u64, 8, &V::I(*p), 64)?; }
        let id = match self.m.fmap.get("main") { Some(&i) => i, None => return limit("no main") };
        self.push(&mut st, id, vec![V::I(argv.len() as u64), V::I(av)])?;
        self.work.push(st);
        Ok(())
    }
    fn push(&mut self, st: &mut State, id: u32, args: Vec<V>) -> Rs<()> {
        if st.frames.len() > 400 { return bad("call depth over 400"); }
        let f = self.m.func(id).map_err(Stop::Limit)?;
        self.fcov[id as usize] = true;
        let mut regs = vec![V::I(0); f.nregs as usize];
        for (i, (r, t)) in f.params.iter().enumerate() { regs[*r as usize] = args.get(i).cloned().unwrap_or_else(|| ir::Ps::zero(t)); }
        let sp = st.stack.len();
        st.frames.push(Frame { f, bb: 0, ip: 0, regs, sp, lp: None });
        Ok(())
    }
    fn goto(&mut self, st: &mut State, bb: u32) -> Rs<()> {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.bb;
        let f = fr.f.clone();
        fr.bb = bb; fr.ip = 0;
        let mut vals: Vec<(u32, V)> = vec![];
        for ins in &f.blocks[bb as usize].ins {
            match &ins.i { I::Phi(cs) => { let (_, o) = cs.iter().find(|(b, _)| *b == from).ok_or_else(|| Stop::Limit("phi".into()))?; vals.push((ins.d, match o { Op::R(r) => fr.regs[*r as usize].clone(), Op::K(v) => v.clone() })); fr.ip += 1; } _ => break }
        }
        for (d, v) in vals { fr.regs[d as usize] = v; }
        Ok(())
    }
    fn pop(st: &mut State) { let f = st.frames.pop().unwrap(); st.stack.truncate(f.sp); }
    /// The call at the top frame's ip has produced `v`: continue after it.
    fn retto(&mut self, st: &mut State, v: Option<V>) -> Rs<()> {
        let fr = st.frames.last_mut().unwrap();
        let f = fr.f.clone();
        let ins = &f.blocks[fr.bb as usize].ins[fr.ip as usize];
        let c = if let I::Call(c) = &ins.i { c } else { return limit("return into a non-call") };
        if ins.d != u32::MAX { fr.regs[ins.d as usize] = v.unwrap_or_else(|| ir::Ps::zero(&c.ret)); }
        match c.inv { Some((n, _)) => self.goto(st, n), None => { fr.ip += 1; Ok(()) } }
    }
    fn unwind(&mut self, st: &mut State, exc: V) -> Rs<()> {
        loop {
            let fr = match st.frames.last_mut() { Some(f) => f, None => return bad("panic reached the top of the stack") };
            let f = fr.f.clone();
            if let I::Call(Call { inv: Some((_, u)), .. }) = &f.blocks[fr.bb as usize].ins[fr.ip as usize].i {
                let u = *u;
                self.goto(st, u)?;
                let fr = st.frames.last_mut().unwrap();
                if let I::LPad(_, cl) = &f.blocks[u as usize].ins[fr.ip as usize].i {
                    let mut sel = 0u64;
                    for (flt, all) in cl { if *flt { sel = 0xffff_ffff; break; } if *all { sel = 1; break; } return limit("typed catch clause"); }
                    fr.lp = Some((exc, sel));
                    return Ok(());
                }
                return limit("unwind target without landingpad");
            }
            Self::pop(st);
        }
    }
    fn where_(&self, st: &State) -> Vec<String> { st.frames.iter().rev().take(12).map(|f| format!("{} %{}:{}", f.f.name, f.f.blocks[f.bb as usize].name, f.ip)).collect() }

    pub fn run(&mut self) {
        while let Some(mut st) = self.work.pop() {
            if self.deadline.map_or(false, |d| Instant::now() > d) { *self.limits.entry("time budget".into()).or_insert(0) += 1; break; }
            if self.stop_at_violation && !self.viol.is_empty() { break; }
            if self.limits.get("instruction budget of one path").map_or(false, |n| *n >= 3) { break; }
            let s0 = st.steps;
            let r = loop {
                if st.frames.is_empty() { break Stop::Done; }
                st.steps += 1;
                if st.steps > self.max_steps { let m = st.model.clone(); self.violate(&st, "runaway: a path does not end", m); break Stop::Limit("instruction budget of one path".into()); }
                if st.steps & 0xfffff == 0 && self.deadline.map_or(false, |d| Instant::now() > d) { break Stop::Limit("time budget".into()); }
                match self.step(&mut st) { Ok(()) => {} Err(s) => break s }
            };
            self.steps += st.steps - s0;
            self.paths += 1;
            match r {
                Stop::Done => self.done += 1,
                Stop::Assume => self.assumed += 1,
                Stop::Failed => self.failed += 1,
                Stop::Bad(s) => { let id = format!("crash: {s}"); *self.bad.entry(id.clone()).or_insert(0) += 1; self.violate(&st, &id, st.model.clone()); }
                Stop::Limit(s) => { if self.trace || !self.limits.contains_key(&s) { eprintln!("LIMIT {s}\n  {}", self.where_(&st).join("\n  ")); } *self.limits.entry(s).or_insert(0) += 1; }
            }
        }
    }
    fn violate(&mut self, st: &State, id: &str, mut model: Vec<u8>) {
        if !id.starts_with("runaway") { if let Some(g) = self.grace.take() { let d = Instant::now() + g; self.deadline = Some(self.deadline.map_or(d, |x| x.min(d))); } }
        let n = self.viol.iter().filter(|v| v.id == id).count();
        if n < self.max_viol { model.resize(st.nvars as usize, 0); let t = self.where_(st); self.viol.push(Violation { id: id.to_string(), model, names: st.names.clone(), log: st.log.clone(), trace: t }); }
    }

    fn step(&mut self, st: &mut State) -> Rs<()> {
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let ins = &f.blocks[fr.bb as usize].ins[fr.ip as usize];
        if ins.dbg != 0 { let d = ins.dbg as usize; if d >= self.dbgcov.len() { self.dbgcov.resize(d + 1, false); } self.dbgcov[d] = true; }
        macro_rules! set { ($v:expr) => {{ let v = $v; let fr = st.frames.last_mut().unwrap(); fr.regs[ins.d as usize] = v; fr.ip += 1; return Ok(()); }} }
        macro_rules! nxt { () => {{ st.frames.last_mut().unwrap().ip += 1; return Ok(()); }} }
        match &ins.i {
            I::Bin(k, t, a, b) => {
                if matches!(k, B::UDiv | B::SDiv | B::URem | B::SRem) && !matches!(t, Ty::Vec(..)) {
                    let d = self.opv(st, b);
                    if let V::S(e) = d { let z = expr::cmp(C::Eq, e, cst(0, t.bits())); if let Some(m) = self.feasible(st, z)? { Self::add(st, z, m); return bad("division by zero"); } }
                }
                let (a, b) = (self.opv(st, a), self.opv(st, b)); set!(self.bin(*k, t, &a, &b)?) }
            I::ICmp(p, t, a, b) => { let (a, b) = (self.opv(st, a), self.opv(st, b)); set!(self.icmp(*p, t, &a, &b)?) }
            I::Cast(k, ft, t, a) => { let a = self.opv(st, a); set!(self.cast(*k, ft, t, &a)?) }
            I::Load(t, p) => {
                match self.opv(st, p) {
                    V::I(a) => set!(self.load(st, t, a)?),
                    V::S(e) => {
                        let vals = self.values(st, e, 300)?;
                        if vals.is_empty() { return limit("no address"); }
                        let mut r: Option<V> = None;
                        for v in vals {
                            let x = match self.load(st, t, v) { Ok(x) => x, Err(Stop::Bad(s)) => { // let the model show this address
                                let c = expr::cmp(C::Eq, e, cst(v as u128, 64)); if let Some(m) = self.feasible(st, c)? { Self::add(st, c, m); } return bad(s) } Err(s) => return Err(s) };
                            r = Some(match r { None => x, Some(y) => { let c = expr::cmp(C::Eq, e, cst(v as u128, 64)); self.select(t, &from_e(c), &x, &y)? } }); }
                        set!(r.unwrap())
                    }
                    _ => limit("load address"),
                }
            }
            I::Store(t, v, p) => { let a = self.conc(st, p, 64, 300)?; let v = self.opv(st, v); self.store(st, t, a, &v)?; nxt!() }
            I::Gep(b, off, dynx) => {
                let base = self.opv(st, b);
                let mut acc = match base { V::I(x) => V::I(x.wrapping_add(*off as u64)), V::S(e) => from_e(expr::bin(B::Add, e, cst(*off as i128 as u128, 64))), _ => return limit("gep") };
                for (o, w, sz) in dynx {
                    let v = self.opv(st, o);
                    acc = match (&acc, &v) {
                        (V::I(x), V::I(k)) => V::I(x.wrapping_add((sx(*k as u128, *w) as u64).wrapping_mul(*sz))),
                        _ => { let e = sext(to_e(&v, *w), 64); let e = expr::bin(B::Mul, e, cst(*sz as u128, 64)); from_e(expr::bin(B::Add, to_e(&acc, 64), e)) }
                    };
                }
                set!(acc)
            }
            I::Alloca(t, n) => { let n = self.conc(st, n, 64, 1)?; let sz = t.size() * n; if sz >= SLOT { return limit("large alloca"); }
                let i = st.stack.len() as u64; st.stack.push(Rc::new(Obj { size: sz, data: vec![0; sz as usize], sym: None, ro: false })); set!(V::I(STACK_BASE + i * SLOT)) }
            I::Select(_, t, c, a, b) => { let (c, a, b) = (self.opv(st, c), self.opv(st, a), self.opv(st, b)); set!(self.select(t, &c, &a, &b)?) }
            I::Phi(_) => limit("stray phi"),
            I::Br(b) => self.goto(st, *b),
            I::CondBr(c, a, b) => {
                match self.opv(st, c) {
                    V::I(k) => { let t = if k & 1 == 1 { *a } else { *b }; self.goto(st, t) }
                    V::S(e) => {
                        let ne = not(e);
                        let mut err = None;
                        let (a, b) = (*a, *b);
                        let me: *mut Exec = self;
                        let k = self.split(st, &[e, ne], |s, i| { if let Err(x) = unsafe { &mut *me }.goto(s, if i == 0 { a } else { b }) { err = Some(x); } })?;
                        if let Some(x) = err { return Err(x); }
                        self.goto(st, if k == 0 { a } else { b })
                    }
                    _ => limit("branch"),
                }
            }
            I::Switch(w, v, d, cs) => {
                match self.opv(st, v) {
                    V::I(k) => { let t = cs.iter().find(|c| c.0 == k).map_or(*d, |c| c.1); self.goto(st, t) }
                    V::S(e) => {
                        let mut by: Vec<(u32, E)> = vec![]; let mut none = tt();
                        for (k, t) in cs { let q = expr::cmp(C::Eq, e, cst(*k as u128, *w)); let nq = not(q); none = expr::bin(B::And, none, nq);
                            match by.iter_mut().find(|x| x.0 == *t) { Some(x) => x.1 = expr::bin(B::Or, x.1, q), None => by.push((*t, q)) } }
                        match by.iter_mut().find(|x| x.0 == *d) { Some(x) => x.1 = expr::bin(B::Or, x.1, none), None => by.push((*d, none)) }
                        let conds: Vec<E> = by.iter().map(|x| x.1).collect();
                        let mut err = None;
                        let me: *mut Exec = self;
                        let k = self.split(st, &conds, |s, i| { if let Err(x) = unsafe { &mut *me }.goto(s, by[i].0) { err = Some(x); } })?;
                        if let Some(x) = err { return Err(x); }
                        self.goto(st, by[k].0)
                    }
                    _ => limit("switch"),
                }
            }
            I::Ret(v) => { let v = v.as_ref().map(|(_, o)| self.opv(st, o)); Self::pop(st); if st.frames.is_empty() { return Ok(()); } self.retto(st, v) }
            I::Unreachable => bad("reached `unreachable`"),
            I::Extract(o, ix) => { let mut v = self.opv(st, o); for i in ix { v = match v { V::A(x) => x[*i as usize].clone(), _ => return limit("extractvalue") }; } set!(v) }
            I::Insert(o, e, ix) => { fn go(v: V, e: V, ix: &[u32]) -> V { if ix.is_empty() { return e; } if let V::A(x) = v { let mut y = (*x).clone(); y[ix[0] as usize] = go(y[ix[0] as usize].clone(), e, &ix[1..]); V::A(Rc::new(y)) } else { v } } let v = self.opv(st, o); let e = self.opv(st, e); set!(go(v, e, ix)) }
            I::ExtEl(o, i) => { let k = self.conc(st, i, 64, 64)? as usize; match self.opv(st, o) { V::A(x) => set!(x[k].clone()), _ => limit("extractelement") } }
            I::InsEl(o, e, i) => { let k = self.conc(st, i, 64, 64)? as usize; let e = self.opv(st, e); match self.opv(st, o) { V::A(x) => { let mut y = (*x).clone(); y[k] = e; set!(V::A(Rc::new(y))) } _ => limit("insertelement") } }
            I::Shuffle(a, b, m) => { match (self.opv(st, a), self.opv(st, b)) { (V::A(x), V::A(y)) => { let n = x.len(); set!(V::A(Rc::new(m.iter().map(|k| { let k = k.unwrap() as usize; if k < n { x[k].clone() } else { y[k - n].clone() } }).collect()))) } _ => limit("shuffle") } }
            I::LPad(..) => { let (e, s) = st.frames.last_mut().unwrap().lp.take().ok_or_else(|| Stop::Limit("landingpad".into()))?; set!(V::A(Rc::new(vec![e, V::I(s)]))) }
            I::Resume(v) => { let v = match self.opv(st, v) { V::A(x) => x[0].clone(), v => v }; Self::pop(st); self.unwind(st, v) }
            I::Rmw(op, t, p, v) => {
                let a = self.conc(st, p, 64, 1)?; let v = self.opv(st, v); let old = self.load(st, t, a)?;
                let new = match op.as_str() { "xchg" => v, "add" => self.bin(B::Add, t, &old, &v)?, "sub" => self.bin(B::Sub, t, &old, &v)?, "and" => self.bin(B::And, t, &old, &v)?, "or" => self.bin(B::Or, t, &old, &v)?, "xor" => self.bin(B::Xor, t, &old, &v)?, _ => return limit(format!("atomicrmw {op}")) };
                self.store(st, t, a, &new)?; set!(old) }
            I::CmpXchg(t, p, a, b) => {
                let ad = self.conc(st, p, 64, 1)?; let (a, b) = (self.opv(st, a), self.opv(st, b)); let old = self.load(st, t, ad)?;
                let eq = self.icmp(Pred::Eq, t, &old, &a)?;
                let new = self.select(t, &eq, &b, &old)?; self.store(st, t, ad, &new)?;
                set!(V::A(Rc::new(vec![old, eq]))) }
            I::Copy(v) => { let v = self.opv(st, v); set!(v) }
            I::Nop => nxt!(),
            I::Unsupported(s) => limit(format!("instruction {s}")),
            I::Call(c) => self.call(st, c, ins.d),
        }
    }

    fn call(&mut self, st: &mut State, c: &Call, _d: u32) -> Rs<()> {
        let id = match &c.callee {
            Callee::Asm => return self.retto(st, None),
            Callee::Fn(i) => *i,
            Callee::Ind(op) => { let a = self.conc(st, op, 64, 64)?; match self.m.fn_at(a) { Some(i) => i, None => return bad(format!("call through a bad pointer {a:#x}")) } }
        };
        if self.ext[id as usize].is_none() { let x = self.classify(id); self.ext[id as usize] = Some(x); }
        let x = self.ext[id as usize].unwrap();
        if x == X::None {
            if self.m.fns[id as usize].text.is_none() { return limit(format!("external function {}", self.m.fns[id as usize].name)); }
            let args: Vec<V> = c.args.iter().map(|(o, _)| self.opv(st, o)).collect();
            return self.push(st, id, args);
        }
        self.ext_call(st, c, x)
    }

    fn classify(&self, id: u32) -> X {
        let n = self.m.fns[id as usize].name.as_str();
        if let Some(r) = n.strip_prefix("llvm.") {
            let p = |s: &str| r.starts_with(s);
            return if p("lifetime.") || p("experimental.noalias") || p("assume") || p("dbg.") || p("invariant.") || p("prefetch") || p("donothing") || p("x86.sse2.pause") || p("va_") { X::Ignore }
                else if p("memcpy.") || p("memmove.") { X::Memcpy } else if p("memset.") { X::Memset }
                else if p("abs.") { X::Abs } else if p("smax.") { X::Smax } else if p("smin.") { X::Smin } else if p("umax.") { X::Umax } else if p("umin.") { X::Umin }
                else if p("ucmp.") { X::Ucmp } else if p("scmp.") { X::Scmp } else if p("uadd.sat") { X::UaddSat } else if p("usub.sat") { X::UsubSat } else if p("sadd.sat") { X::SaddSat } else if p("ssub.sat") { X::SsubSat }
                else if p("uadd.with") { X::UaddO } else if p("sadd.with") { X::SaddO } else if p("usub.with") { X::UsubO } else if p("ssub.with") { X::SsubO } else if p("umul.with") { X::UmulO } else if p("smul.with") { X::SmulO }
                else if p("bswap.") { X::Bswap } else if p("bitreverse.") { X::Bitrev } else if p("ctlz.") { X::Ctlz } else if p("cttz.") { X::Cttz } else if p("ctpop.") { X::Ctpop } else if p("fshl.") { X::Fshl } else if p("fshr.") { X::Fshr }
                else if p("is.constant") { X::IsConst } else if p("threadlocal.address") { X::Tls } else if p("trap") || p("ubsantrap") || p("debugtrap") { X::Trap } else if p("expect") || p("launder") || p("strip.invariant") || p("ptr.annotation") || p("ssa.copy") { X::Expect }
                else if p("objectsize") { X::Objsize } else if p("vector.reduce.or") { X::RedOr } else if p("vector.reduce.and") { X::RedAnd } else if p("vector.reduce.add") { X::RedAdd } else if p("x86.sse2.pmovmskb") { X::Pmovmskb }
                else { X::None };
        }
        match n {
            "sym_u8" => X::SymU8, "sym_bytes" => X::SymBytes, "sym_assume" => X::SymAssume, "sym_check" => X::SymCheck, "sym_cover" => X::SymCover, "sym_pick" => X::SymPick,
            "sym_stop" => X::SymStop, "sym_limit" => X::SymLimit, "sym_log" => X::SymLog, "sym_engine" => X::SymEngine, "sym_fork" => X::SymFork, "sym_is_symbolic" => X::SymIsSym, "sym_init" => X::Ignore, "sym_done" => X::SymStop,
            _ if self.m.fns[id as usize].text.is_some() => X::None,
            "malloc" => X::Malloc, "calloc" => X::Calloc, "realloc" => X::Realloc, "free" => X::Free, "posix_memalign" => X::PosixMemalign,
            "memcpy" | "memmove" => X::Memcpy, "memset" => X::Memset, "memcmp" | "bcmp" => X::Memcmp, "strlen" => X::Strlen, "memchr" => X::Memchr, "memrchr" => X::Memrchr,
            "abort" => X::Abort, "exit" | "_exit" => X::Exit,
            "_Unwind_RaiseException" => X::Raise, "_Unwind_DeleteException" => X::RetZero, "_Unwind_Backtrace" => X::RetFive,
            "__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_key_delete" | "dl_iterate_phdr" | "pthread_attr_destroy" | "pthread_mutex_lock" | "pthread_mutex_unlock" => X::RetZero,
            "pthread_self" | "gettid" => X::RetOne,
            "getrandom" => X::Getrandom, "syscall" => X::Syscall, "pthread_key_create" => X::KeyCreate,
            _ => X::None,
        }
    }

    fn ext_call(&mut self, st: &mut State, c: &Call, x: X) -> Rs<()> {
        let t0 = c.args.first().map(|a| a.1.clone()).unwrap_or(Ty::Void);
        let arg = |me: &Self, st: &State, i: usize| me.opv(st, &c.args[i].0);
        let w = match &t0 { Ty::Int(w) => *w, Ty::Ptr => 64, _ => 0 };
        let vecmap1 = matches!(t0, Ty::Vec(..));
        if vecmap1 && !matches!(x, X::RedOr | X::RedAnd | X::RedAdd | X::Pmovmskb | X::Ignore | X::Expect) {
            // element-wise
            if let Ty::Vec(n, et) = &t0 {
                let n = *n; let ew = et.bits();
                let args: Vec<V> = (0..c.args.len()).map(|i| arg(self, st, i)).collect();
                let mut out = vec![];
                for i in 0..n as usize { let xs: Vec<V> = args.iter().map(|a| if let V::A(v) = a { v[i].clone() } else { a.clone() }).collect(); out.push(self.scalar(x, ew, &xs)?); }
                return self.retto(st, Some(V::A(Rc::new(out))));
            }
        }
        let v = match x {
            X::Ignore => None,
            X::Memcpy => { let (d, s, n) = (self.conc(st, &c.args[0].0, 64, 64)?, self.conc(st, &c.args[1].0, 64, 64)?, self.conc(st, &c.args[2].0, 64, 64)?); self.copy(st, d, s, n)?; Some(V::I(d)) }
            X::Memset => { let (d, n) = (self.conc(st, &c.args[0].0, 64, 64)?, self.conc(st, &c.args[2].0, c.args[2].1.bits(), 64)?);
                let b = arg(self, st, 1); let bw = c.args[1].1.bits(); let e = extract(7, 0, to_e(&b, bw));
                if n > 0 { match as_const(e) {
                    Some(k) => { let (o, off) = self.find_mut(st, d, n)?; for b in &mut o.data[off as usize..(off + n) as usize] { *b = k as u8; } if let Some(m) = &mut o.sym { for i in 0..n { m.remove(&((off + i) as u32)); } if m.is_empty() { o.sym = None; } } }
                    None => { let (o, off) = self.find_mut(st, d, n)?; for i in 0..n { Self::set_byte(o, off + i, e); } } } }
                Some(V::I(d)) }
            X::Malloc => { let n = self.conc(st, &c.args[0].0, 64, 64)?; Some(V::I(self.alloc(st, n)?)) }
            X::Calloc => { let n = self.conc(st, &c.args[0].0, 64, 64)?; let m = self.conc(st, &c.args[1].0, 64, 64)?; Some(V::I(self.alloc(st, n.saturating_mul(m))?)) }
            X::Realloc => { let p = self.conc(st, &c.args[0].0, 64, 64)?; let n = self.conc(st, &c.args[1].0, 64, 64)?; let q = self.alloc(st, n)?;
                if p != 0 { let (o, off) = self.find0(st, p)?; if off != 0 || p >> 44 != 3 { return bad("realloc of a bad pointer"); } let k = o.size.min(n); drop(o); self.copy(st, q, p, k)?; st.heap[((p - HEAP_BASE) / SLOT) as usize] = None; }
                Some(V::I(q)) }
            X::Free => { let p = self.conc(st, &c.args[0].0, 64, 64)?; if p != 0 { if p >> 44 != 3 { return bad("free of a non-heap pointer"); } let (_, off) = self.find0(st, p)?; if off != 0 { return bad("free of an interior pointer"); } st.heap[((p - HEAP_BASE) / SLOT) as usize] = None; } None }
            X::PosixMemalign => { let pp = self.conc(st, &c.args[0].0, 64, 1)?; let n = self.conc(st, &c.args[2].0, 64, 64)?; let q = self.alloc(st, n)?; self.store_bits(st, pp, 8, &V::I(q), 64)?; Some(V::I(0)) }
            X::Memcmp => { let (p, q, n) = (self.conc(st, &c.args[0].0, 64, 64)?, self.conc(st, &c.args[1].0, 64, 64)?, self.conc(st, &c.args[2].0, 64, 64)?);
                let is_b = matches!(&c.callee, Callee::Fn(i) if self.m.fns[*i as usize].name == "bcmp");
                let rw = c.ret.bits();
                let mut r = cst(0, rw);
                let mut eq = tt();
                for i in (0..n).rev() { let (a, b) = (self.byte(st, p + i)?, self.byte(st, q + i)?); let e = cmp(C::Eq, a, b);
                    if is_b { eq = expr::bin(B::And, e, eq); } else { let lt = cmp(C::Ult, a, b); let s = ite(lt, cst(!0, rw), cst(1, rw)); r = ite(e, r, s); } }
                if is_b { r = ite(eq, cst(0, rw), cst(1, rw)); }
                Some(from_e(r)) }
            X::Strlen => { let p = self.conc(st, &c.args[0].0, 64, 64)?; let (mut cs, mut vals, mut pre, mut i) = (vec![], vec![], tt(), 0u64);
                loop { let b = self.byte(st, p + i)?; let z = cmp(C::Eq, b, cst(0, 8)); let q = expr::bin(B::And, pre, z); if as_const(q) != Some(0) { cs.push(q); vals.push(i); } let nz = not(z); pre = expr::bin(B::And, pre, nz); if as_const(pre) == Some(0) { break; } i += 1; }
                return self.cases(st, &cs, &vals); }
            X::Memchr | X::Memrchr => { let p = self.conc(st, &c.args[0].0, 64, 64)?; let ch = arg(self, st, 1); let ch = extract(7, 0, to_e(&ch, c.args[1].1.bits())); let n = self.conc(st, &c.args[2].0, 64, 64)?;
                let (mut cs, mut vals, mut pre) = (vec![], vec![], tt());
                for k in 0..n { let i = if x == X::Memchr { k } else { n - 1 - k }; let b = self.byte(st, p + i)?; let z = cmp(C::Eq, b, ch); let q = expr::bin(B::And, pre, z); if as_const(q) != Some(0) { cs.push(q); vals.push(p + i); } let nz = not(z); pre = expr::bin(B::And, pre, nz); if as_const(pre) == Some(0) { break; } }
                if as_const(pre) != Some(0) { cs.push(pre); vals.push(0); }
                return self.cases(st, &cs, &vals); }
            X::Abort | X::Trap => return bad("abort"),
            X::Exit => { st.frames.clear(); return Ok(()); }
            X::Raise => { let e = arg(self, st, 0); return self.unwind(st, e); }
            X::RetZero => Some(V::I(0)), X::RetFive => Some(V::I(5)), X::RetOne => Some(V::I(1)),
            X::Getrandom => { let p = self.conc(st, &c.args[0].0, 64, 1)?; let n = self.conc(st, &c.args[1].0, 64, 1)?; for i in 0..n { self.store_bits(st, p + i, 1, &V::I(0x5a ^ i), 8)?; } Some(V::I(n)) }
            X::Syscall => { let k = self.conc(st, &c.args[0].0, 64, 1)?; match k { 186 => Some(V::I(1)), 318 => { let p = self.conc(st, &c.args[1].0, 64, 1)?; let n = self.conc(st, &c.args[2].0, 64, 1)?; for i in 0..n { self.store_bits(st, p + i, 1, &V::I(0x5a ^ i), 8)?; } Some(V::I(n)) } _ => return limit(format!("syscall {k}")) } }
            X::KeyCreate => { let p = self.conc(st, &c.args[0].0, 64, 1)?; self.store_bits(st, p, 4, &V::I(7), 32)?; Some(V::I(0)) }
            X::SymU8 => { let p = self.conc(st, &c.args[0].0, 64, 1)?; let n = self.cstr(st, p)?; let e = self.fresh(st, &n, 1)[0]; let rw = c.ret.bits(); Some(V::S(zext(e, rw))) }
            X::SymBytes => { let p = self.conc(st, &c.args[0].0, 64, 1)?; let n = self.conc(st, &c.args[1].0, 64, 1)?; let np = self.conc(st, &c.args[2].0, 64, 1)?; let nm = self.cstr(st, np)?;
                let es = self.fresh(st, &nm, n as u32); if n > 0 { let (o, off) = self.find_mut(st, p, n)?; for (i, e) in es.iter().enumerate() { Self::set_byte(o, off + i as u64, *e); } } None }
            X::SymAssume => { let b = arg(self, st, 0); let e = self.truth(&b, w); match self.feasible(st, e)? { Some(m) => { Self::add(st, e, m); None } None => return Err(Stop::Assume) } }
            X::SymCheck => {
                let p = self.conc(st, &c.args[1].0, 64, 1)?; let id = self.cstr(st, p)?;
                let b = arg(self, st, 0); let e = self.truth(&b, w); let ne = not(e);
                let triv = as_const(e).is_some();
                let cs = self.checks.entry(id.clone()).or_default();
                cs.hit += 1; if triv { cs.trivial += 1; } else { cs.solver += 1; }
                if let Some(m) = self.feasible(st, ne)? {
                    self.checks.get_mut(&id).unwrap().failed += 1;
                    self.violate(st, &id, m);
                    match self.feasible(st, e)? { Some(m) => Self::add(st, e, m), None => return Err(Stop::Failed) }
                }
                None }
            X::SymCover => { let p = self.conc(st, &c.args[0].0, 64, 1)?; let id = self.cstr(st, p)?; *self.covers.entry(id.clone()).or_insert(0) += 1; if !self.cover_model.contains_key(&id) { let mut m = st.model.clone(); m.resize(st.nvars as usize, 0); self.cover_model.insert(id, m); } None }
            X::SymPick => { let k = self.conc(st, &c.args[0].0, w, 300)?; Some(V::I(k)) }
            X::SymStop => { st.frames.clear(); return Ok(()); }
            X::SymLimit => { let p = self.conc(st, &c.args[0].0, 64, 1)?; let s = self.cstr(st, p)?; return limit(s); }
            X::SymLog => { let p = self.conc(st, &c.args[0].0, 64, 1)?; let n = self.conc(st, &c.args[1].0, 64, 1)?; let mut s = vec![]; for i in 0..n { let b = self.byte(st, p + i)?; s.push(as_const(b).map_or(b'?', |k| k as u8)); } let s = String::from_utf8_lossy(&s).into_owned(); if self.trace { eprintln!("LOG {s}"); } st.log.push(s.into()); None }
            X::SymEngine => Some(V::I(1)),
            X::SymIsSym => { let v = arg(self, st, 0); Some(V::I(matches!(v, V::S(_)) as u64)) }
            X::SymFork => { let n = self.conc(st, &c.args[0].0, 32, 1)?; let p = self.conc(st, &c.args[1].0, 64, 1)?; let nm = self.cstr(st, p)?; if n > 256 || n == 0 { return limit("sym_fork"); }
                let e = self.fresh(st, &nm, 1)[0];
                let inr = cmp(C::Ule, e, cst(n as u128 - 1, 8)); let m = st.model.clone(); Self::add(st, inr, m);
                let cs: Vec<E> = (0..n).map(|k| cmp(C::Eq, e, cst(k as u128, 8))).collect(); let vals: Vec<u64> = (0..n).collect();
                return self.cases(st, &cs, &vals); }
            X::RedOr | X::RedAnd | X::RedAdd => { let ew = if let Ty::Vec(_, e) = &t0 { e.bits() } else { return limit("reduce") }; match arg(self, st, 0) { V::A(vs) => { let mut r = to_e(&vs[0], ew); for v in &vs[1..] { r = expr::bin(match x { X::RedOr => B::Or, X::RedAnd => B::And, _ => B::Add }, r, to_e(v, ew)); } Some(from_e(r)) } _ => return limit("reduce") } }
            X::Pmovmskb => match arg(self, st, 0) { V::A(vs) => { let mut r: Option<E> = None; for v in vs.iter() { let b = extract(7, 7, to_e(v, 8)); r = Some(match r { None => b, Some(l) => concat(b, l) }); } Some(from_e(zext(r.unwrap(), 32))) } _ => return limit("pmovmskb") },
            _ => { let args: Vec<V> = (0..c.args.len()).map(|i| arg(self, st, i)).collect(); Some(self.scalar(x, w, &args)?) }
        };
        self.retto(st, v)
    }
    fn truth(&self, v: &V, w: u32) -> E { let e = to_e(v, w); if w == 1 { e } else { let z = cmp(C::Eq, e, cst(0, w)); not(z) } }
    fn fresh(&mut self, st: &mut State, name: &str, n: u32) -> Vec<E> {
        if (st.nvars + n) as usize > MAXV { eprintln!("too many symbolic bytes"); std::process::exit(7); }
        let v = (0..n).map(|i| var(st.nvars + i)).collect();
        st.nvars += n; st.names.push((name.into(), n));
        if st.model.len() < st.nvars as usize { st.model.resize(st.nvars as usize, 0); }
        v
    }
    /// The call returns `vals[i]` when `cs[i]` holds.
    fn cases(&mut self, st: &mut State, cs: &[E], vals: &[u64]) -> Rs<()> {
        let me: *mut Exec = self;
        let mut err = None;
        let k = self.split(st, cs, |s, i| { if let Err(e) = unsafe { &mut *me }.retto(s, Some(V::I(vals[i]))) { err = Some(e); } })?;
        if let Some(e) = err { return Err(e); }
        self.retto(st, Some(V::I(vals[k])))
    }
    fn scalar(&self, x: X, w: u32, a: &[V]) -> Rs<V> {
        let e = |i: usize| to_e(&a[i], w);
        let pair = |v: E, o: E| V::A(Rc::new(vec![from_e(v), from_e(o)]));
        Ok(match x {
            X::Expect | X::Tls => a[0].clone(),
            X::IsConst => V::I(0),
            X::Objsize => cint(!0, 64),
            X::Abs => { let v = e(0); let n = expr::bin(B::Sub, cst(0, w), v); let c = cmp(C::Slt, v, cst(0, w)); from_e(ite(c, n, v)) }
            X::Smax => from_e(ite(cmp(C::Slt, e(0), e(1)), e(1), e(0))), X::Smin => from_e(ite(cmp(C::Slt, e(0), e(1)), e(0), e(1))),
            X::Umax => from_e(ite(cmp(C::Ult, e(0), e(1)), e(1), e(0))), X::Umin => from_e(ite(cmp(C::Ult, e(0), e(1)), e(0), e(1))),
            X::Ucmp | X::Scmp => { let op = if x == X::Ucmp { C::Ult } else { C::Slt }; let lt = cmp(op, e(0), e(1)); let eq = cmp(C::Eq, e(0), e(1)); let i = ite(eq, cst(0, 8), cst(1, 8)); from_e(ite(lt, cst(0xff, 8), i)) }
            X::UaddSat => { let s = expr::bin(B::Add, e(0), e(1)); let o = cmp(C::Ult, s, e(0)); from_e(ite(o, cst(!0, w), s)) }
            X::UsubSat => { let o = cmp(C::Ult, e(0), e(1)); from_e(ite(o, cst(0, w), expr::bin(B::Sub, e(0), e(1)))) }
            X::SaddSat | X::SsubSat => { let k = if x == X::SaddSat { B::Add } else { B::Sub }; let (p, q) = (sext(e(0), w + 1), sext(e(1), w + 1)); let s = expr::bin(k, p, q); let hi = cst(mask(w - 1), w + 1); let lo = not(hi); let over = cmp(C::Slt, hi, s); let under = cmp(C::Slt, s, lo); let r = ite(under, lo, s); let r = ite(over, hi, r); from_e(extract(w - 1, 0, r)) }
            X::UaddO => { let s = expr::bin(B::Add, zext(e(0), w + 1), zext(e(1), w + 1)); let r = expr::bin(B::Add, e(0), e(1)); pair(r, extract(w, w, s)) }
            X::UsubO => { let r = expr::bin(B::Sub, e(0), e(1)); pair(r, cmp(C::Ult, e(0), e(1))) }
            X::UmulO => { if w > 64 { return limit("wide multiplication"); } let (p, q) = (e(0), e(1)); let r = expr::bin(B::Mul, p, q);
                let o = match node(p).max.checked_mul(node(q).max) { Some(k) if k <= mask(w) => ff(), _ => { let s = expr::bin(B::Mul, zext(p, 2 * w), zext(q, 2 * w)); let h = extract(2 * w - 1, w, s); let z = cmp(C::Eq, h, cst(0, w)); not(z) } };
                pair(r, o) }
            X::SaddO | X::SsubO => { let k = if x == X::SaddO { B::Add } else { B::Sub }; let s = expr::bin(k, sext(e(0), w + 1), sext(e(1), w + 1)); let r = extract(w - 1, 0, s); let o = cmp(C::Eq, sext(r, w + 1), s); pair(r, not(o)) }
            X::SmulO => { if w > 64 { return limit("wide multiplication"); } let s = expr::bin(B::Mul, sext(e(0), 2 * w), sext(e(1), 2 * w)); let r = extract(w - 1, 0, s); let o = cmp(C::Eq, sext(r, 2 * w), s); pair(r, not(o)) }
            X::Bswap => { let v = e(0); let mut r = extract(7, 0, v); for i in 1..w / 8 { r = concat(r, extract(8 * i + 7, 8 * i, v)); } from_e(r) }
            X::Bitrev => { let v = e(0); let mut r = extract(0, 0, v); for i in 1..w { r = concat(r, extract(i, i, v)); } from_e(r) }
            X::Ctlz => { let v = e(0); let mut r = cst(w as u128, w); for i in 0..w { r = ite(extract(i, i, v), cst((w - 1 - i) as u128, w), r); } from_e(r) }
            X::Cttz => { let v = e(0); let mut r = cst(w as u128, w); for i in (0..w).rev() { r = ite(extract(i, i, v), cst(i as u128, w), r); } from_e(r) }
            X::Ctpop => { let v = e(0); let mut r = cst(0, w); for i in 0..w { r = expr::bin(B::Add, r, if w == 1 { v } else { zext(extract(i, i, v), w) }); } from_e(r) }
            X::Fshl | X::Fshr => { let k = match &a[2] { V::I(k) => (*k % w as u64) as u32, _ => return limit("symbolic funnel shift") }; let c = concat(e(0), e(1)); let k = if x == X::Fshl { k } else { (w - k) % w }; if x == X::Fshr && a[2].is_zero_mod(w) { return Ok(a[1].clone()); } from_e(extract(2 * w - 1 - k, w - k, c)) }
            _ => return limit(format!("builtin {:?}", x)),
        })
    }
}
trait ZeroMod { fn is_zero_mod(&self, w: u32) -> bool; }
impl ZeroMod for V { fn is_zero_mod(&self, w: u32) -> bool { matches!(self, V::I(k) if k % w as u64 == 0) } }
