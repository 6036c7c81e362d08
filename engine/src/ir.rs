//! Parser for the textual LLVM IR that rustc emits.
use std::collections::HashMap;
use std::rc::Rc;
use crate::expr::{E, B};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, Fp(u32), Arr(u64, Rc<Ty>), Struct(Rc<Vec<Ty>>, bool), Vec(u32, Rc<Ty>), Other }

impl Ty {
    pub fn align(&self) -> u64 { match self {
        Ty::Int(w) => { let b = ((w + 7) / 8).max(1) as u64; b.next_power_of_two().min(16) }
        Ty::Ptr => 8, Ty::Fp(w) => (*w as u64) / 8,
        Ty::Arr(_, t) => t.align(),
        Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
        Ty::Vec(..) => self.store().next_power_of_two(),
        _ => 1 } }
    /// bytes written by a store
    pub fn store(&self) -> u64 { match self {
        Ty::Int(w) => ((w + 7) / 8) as u64,
        Ty::Ptr => 8, Ty::Fp(w) => (*w as u64) / 8,
        Ty::Vec(n, t) => match **t { Ty::Int(w) => ((n * w + 7) / 8) as u64, Ty::Ptr => 8 * *n as u64, ref t => *n as u64 * t.size() },
        _ => self.size() } }
    pub fn size(&self) -> u64 { match self {
        Ty::Arr(n, t) => n * t.size(),
        Ty::Struct(f, p) => { let mut o = 0u64; for t in f.iter() { if !*p { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); }
            if !*p { let a = self.align(); o = (o + a - 1) / a * a; } o }
        Ty::Void | Ty::Other => 0,
        _ => { let s = self.store(); let a = self.align(); (s + a - 1) / a * a } } }
    pub fn field(&self, i: u64) -> (u64, Ty) { match self {
        Ty::Arr(_, t) | Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
        Ty::Struct(f, p) => { let mut o = 0u64; for (k, t) in f.iter().enumerate() { if !*p { let a = t.align(); o = (o + a - 1) / a * a; } if k as u64 == i { return (o, t.clone()); } o += t.size(); } panic!("field index") }
        _ => panic!("field of {:?}", self) } }
    pub fn bits(&self) -> u32 { match self { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::Fp(w) => *w, Ty::Vec(n, t) => n * t.bits(), _ => panic!("bits of {:?}", self) } }
}

/// A runtime value. Widths come from the instruction's types.
#[derive(Clone, Debug)]
pub enum V { I(u64), W(Rc<u128>), S(E), A(Rc<Vec<V>>) }

#[derive(Clone, Debug)]
pub enum Op { R(u32), K(V) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, Bit }

#[derive(Debug)]
pub struct Call { pub callee: Callee, pub args: Vec<(Op, Ty)>, pub ret: Ty, pub inv: Option<(u32, u32)> }
#[derive(Debug, Clone)]
pub enum Callee { Fn(u32), Ind(Op), Asm }

#[derive(Debug)]
pub enum I {
    Bin(B, Ty, Op, Op),
    ICmp(Pred, Ty, Op, Op),
    Cast(Cast, Ty, Ty, Op),
    Load(Ty, Op),
    Store(Ty, Op, Op),
    Gep(Op, i64, Vec<(Op, u32, u64)>),
    Alloca(Ty, Op),
    Select(Ty, Ty, Op, Op, Op),
    Phi(Vec<(u32, Op)>),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(u32, Op, u32, Vec<(u64, u32)>),
    Call(Call),
    Ret(Option<(Ty, Op)>),
    Unreachable,
    Extract(Op, Vec<u32>),
    Insert(Op, Op, Vec<u32>),
    ExtEl(Op, Op),
    InsEl(Op, Op, Op),
    Shuffle(Op, Op, Vec<Option<u32>>),
    LPad(bool, Vec<(bool, bool)>), // cleanup, (is_filter, catch-all/empty)
    Resume(Op),
    Rmw(String, Ty, Op, Op),
    CmpXchg(Ty, Op, Op, Op),
    Copy(Op),
    Nop,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Ins { pub d: u32, pub i: I, pub dbg: u32 } // d == u32::MAX: no result
#[derive(Debug)]
pub struct Block { pub name: String, pub ins: Vec<Ins> }
#[derive(Debug)]
pub struct Func { pub id: u32, pub name: String, pub params: Vec<(u32, Ty)>, pub ret: Ty, pub blocks: Vec<Block>, pub nregs: u32 }

pub struct FnEnt { pub name: String, pub text: Option<(usize, usize)>, pub parsed: Option<Rc<Func>> }
pub struct GlobEnt { pub name: String, pub addr: u64, pub size: u64, pub konst: bool, pub ext: bool, pub init: Option<(usize, usize)>, pub ty: Ty }

pub const FUNC_BASE: u64 = 0x4000_0000_0000;
pub const GLOB_BASE: u64 = 0x1000_0000_0000;
pub const SLOT: u64 = 1 << 20;

pub struct Module {
    pub src: Rc<Vec<u8>>,
    pub fns: Vec<FnEnt>, pub fmap: HashMap<String, u32>,
    pub globs: Vec<GlobEnt>, pub gmap: HashMap<String, u32>,
    pub weak0: HashMap<String, ()>,
    pub alias: HashMap<String, String>,
    pub types: HashMap<String, String>,
    pub next_slot: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum T { Id(String), Loc(String), Glob(String), Num(String), Str(Vec<u8>), CStr(Vec<u8>), Meta(String), P(u8), Dots, End }

pub struct Lex<'a> { s: &'a [u8], p: usize }
fn idc(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-') }
impl<'a> Lex<'a> {
    pub fn new(s: &'a [u8]) -> Self { Lex { s, p: 0 } }
    fn quoted(&mut self) -> Vec<u8> { // at opening quote
        self.p += 1;
        let mut out = Vec::new();
        while self.s[self.p] != b'"' {
            if self.s[self.p] == b'\\' {
                if self.s[self.p + 1] == b'\\' { out.push(b'\\'); self.p += 2; continue; }
                let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                out.push(u8::from_str_radix(h, 16).unwrap()); self.p += 3;
            } else { out.push(self.s[self.p]); self.p += 1; }
        }
        self.p += 1;
        out
    }
    fn name(&mut self) -> String {
        if self.s[self.p] == b'"' { return String::from_utf8_lossy(&self.quoted()).into_owned(); }
        let st = self.p;
        while self.p < self.s.len() && idc(self.s[self.p]) { self.p += 1; }
        String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
    }
    pub fn next(&mut self) -> T {
        while self.p < self.s.len() && (self.s[self.p] as char).is_ascii_whitespace() { self.p += 1; }
        if self.p >= self.s.len() { return T::End; }
        let c = self.s[self.p];
        match c {
            b';' => { while self.p < self.s.len() && self.s[self.p] != b'\n' { self.p += 1; } self.next() }
            b'%' => { self.p += 1; T::Loc(self.name()) }
            b'@' => { self.p += 1; T::Glob(self.name()) }
            b'!' => { self.p += 1; if self.p < self.s.len() && self.s[self.p] == b'"' { self.quoted(); return T::Meta(String::new()); } T::Meta(self.name()) }
            b'#' => { self.p += 1; let n = self.name(); T::Meta(n) }
            b'"' => T::Str(self.quoted()),
            b'c' if self.s.get(self.p + 1) == Some(&b'"') => { self.p += 1; T::CStr(self.quoted()) }
            b'.' if self.s[self.p..].starts_with(b"...") => { self.p += 3; T::Dots }
            b'0'..=b'9' => T::Num(self.name()),
            b'-' if self.s.get(self.p + 1).map_or(false, |c| c.is_ascii_digit()) => T::Num(self.name()),
            c if idc(c) => T::Id(self.name()),
            c => { self.p += 1; T::P(c) }
        }
    }
    pub fn peek(&mut self) -> T { let p = self.p; let t = self.next(); self.p = p; t }
}

pub struct Ps<'a> { lx: Lex<'a>, m: *mut Module, regs: HashMap<String, u32>, blocks: HashMap<String, u32>, buf: Vec<T>, i: usize }

type Res<X> = Result<X, String>;

impl<'a> Ps<'a> {
    pub fn new(m: *mut Module, s: &'a [u8]) -> Self {
        let mut p = Ps { lx: Lex::new(s), m, regs: HashMap::new(), blocks: HashMap::new(), buf: vec![], i: 0 };
        p.load(s); p
    }
    fn load(&mut self, s: &'a [u8]) { self.lx = Lex::new(s); self.buf.clear(); self.i = 0; loop { let t = self.lx.next(); let e = t == T::End; self.buf.push(t); if e { break; } } }
    fn pk(&self) -> &T { &self.buf[self.i.min(self.buf.len() - 1)] }
    fn pk1(&self) -> &T { &self.buf[(self.i + 1).min(self.buf.len() - 1)] }
    fn nx(&mut self) -> T { let t = self.pk().clone(); self.i += 1; t }
    fn is(&self, c: u8) -> bool { *self.pk() == T::P(c) }
    fn eat(&mut self, c: u8) -> bool { if self.is(c) { self.i += 1; true } else { false } }
    fn want(&mut self, c: u8) -> Res<()> { if self.eat(c) { Ok(()) } else { Err(format!("expected '{}' got {:?}", c as char, self.pk())) } }
    fn isid(&self, s: &str) -> bool { matches!(self.pk(), T::Id(x) if x == s) }
    fn eatid(&mut self, s: &str) -> bool { if self.isid(s) { self.i += 1; true } else { false } }
    fn reg(&mut self, n: &str) -> u32 { if let Some(&r) = self.regs.get(n) { return r; } let r = self.regs.len() as u32; self.regs.insert(n.to_string(), r); r }
    fn m(&self) -> &'static mut Module { unsafe { &mut *self.m } }

    fn ty_start(&self) -> bool { match self.pk() {
        T::Id(s) => matches!(s.as_str(), "void" | "ptr" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "label" | "metadata" | "token" | "opaque") || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit())),
        T::P(b'{') | T::P(b'[') | T::P(b'<') | T::Loc(_) => true,
        _ => false } }
    pub fn ty(&mut self) -> Res<Ty> {
        let t = match self.nx() {
            T::Id(s) => match s.as_str() {
                "void" => Ty::Void, "ptr" => { if self.eatid("addrspace") { self.want(b'(')?; self.nx(); self.want(b')')?; } Ty::Ptr }
                "half" => Ty::Fp(16), "float" => Ty::Fp(32), "double" => Ty::Fp(64), "fp128" => Ty::Fp(128), "x86_fp80" => Ty::Fp(80),
                "label" | "metadata" | "token" | "opaque" => Ty::Other,
                _ if s.starts_with('i') && s[1..].parse::<u32>().is_ok() => Ty::Int(s[1..].parse().unwrap()),
                _ => return Err(format!("type {s}")) },
            T::P(b'{') => self.struct_ty(false)?,
            T::P(b'<') => {
                if self.eat(b'{') { let t = self.struct_ty(true)?; self.want(b'>')?; t }
                else { let n = self.num()?; if !self.eatid("x") { return Err("vector".into()); } let e = self.ty()?; self.want(b'>')?; Ty::Vec(n as u32, Rc::new(e)) } }
            T::P(b'[') => { let n = self.num()?; if !self.eatid("x") { return Err("array".into()); } let e = self.ty()?; self.want(b']')?; Ty::Arr(n as u64, Rc::new(e)) }
            T::Loc(n) => { let d = self.m().types.get(&n).cloned().ok_or_else(|| format!("named type {n}"))?;
                if d.trim() == "opaque" { Ty::Other } else { Ps::new(self.m, d.as_bytes()).ty()? } }
            t => return Err(format!("type {:?}", t)),
        };
        Ok(t)
    }
    fn struct_ty(&mut self, packed: bool) -> Res<Ty> {
        let mut f = vec![];
        if self.eat(b'}') { return Ok(Ty::Struct(Rc::new(f), packed)); }
        loop { f.push(self.ty()?); if self.eat(b'}') { break; } self.want(b',')?; }
        Ok(Ty::Struct(Rc::new(f), packed))
    }
    fn num(&mut self) -> Res<i128> { match self.nx() { T::Num(s) => s.parse::<i128>().map_err(|_| format!("number {s}")), t => Err(format!("number {:?}", t)) } }

    /// skip parameter / return attributes
    fn attrs(&mut self) {
        loop {
            match self.pk().clone() {
                T::Id(s) => {
                    if matches!(s.as_str(), "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "addrspacecast" | "trunc" | "sub" | "add" | "xor" | "asm" | "metadata" | "blockaddress" | "dso_local_equivalent" | "no_cfi") { return; }
                    if self.ty_start() { return; }
                    self.i += 1;
                    if s == "align" { if let T::Num(_) = self.pk() { self.i += 1; continue; } }
                    if s == "cc" { if let T::Num(_) = self.pk() { self.i += 1; continue; } }
                    if self.is(b'(') { self.skip_parens(); }
                }
                T::Str(_) => { self.i += 1; if self.eat(b'=') { self.i += 1; } }
                T::Meta(_) => { self.i += 1; }
                _ => return,
            }
        }
    }
    fn skip_parens(&mut self) { let mut d = 0; loop { match self.nx() { T::P(b'(') => d += 1, T::P(b')') => { d -= 1; if d == 0 { return; } } T::End => return, _ => {} } } }

    pub fn zero(t: &Ty) -> V { match t {
        Ty::Int(w) if *w > 64 => V::W(Rc::new(0)),
        Ty::Fp(w) if *w > 64 => V::W(Rc::new(0)),
        Ty::Arr(n, e) => V::A(Rc::new((0..*n).map(|_| Self::zero(e)).collect())),
        Ty::Vec(n, e) => V::A(Rc::new((0..*n).map(|_| Self::zero(e)).collect())),
        Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(Self::zero).collect())),
        _ => V::I(0) } }

    pub fn konst(&mut self, t: &Ty) -> Res<V> {
        Ok(match self.nx() {
            T::Num(s) => {
                if let Ty::Fp(w) = t {
                    let v = if let Some(h) = s.strip_prefix("0x") { u64::from_str_radix(h, 16).map_err(|e| e.to_string())? } else { s.parse::<f64>().map_err(|e| e.to_string())?.to_bits() };
                    return Ok(V::I(if *w == 32 { (f64::from_bits(v) as f32).to_bits() as u64 } else { v }));
                }
                let w = t.bits();
                let v: u128 = if let Some(x) = s.strip_prefix('-') { (x.parse::<u128>().map_err(|e| e.to_string())?).wrapping_neg() } else { s.parse::<u128>().map_err(|e| format!("{s}: {e}"))? };
                let v = v & crate::expr::mask(w);
                if w > 64 { V::W(Rc::new(v)) } else { V::I(v as u64) }
            }
            T::Id(s) => match s.as_str() {
                "true" => V::I(1), "false" | "null" => V::I(0),
                "undef" | "poison" | "zeroinitializer" | "none" => Self::zero(t),
                "splat" => { self.want(b'(')?; let et = self.ty()?; let v = self.konst(&et)?; self.want(b')')?; if let Ty::Vec(n, _) = t { V::A(Rc::new(vec![v; *n as usize])) } else { return Err("splat".into()); } }
                "getelementptr" => {
                    while !self.is(b'(') { if self.isid("inrange") { self.nx(); self.skip_parens(); continue; } self.nx(); }
                    self.want(b'(')?;
                    let st = self.ty()?; self.want(b',')?;
                    self.ty()?; self.attrs(); let base = self.konst(&Ty::Ptr)?;
                    let mut addr = if let V::I(a) = base { a } else { return Err("gep base".into()); };
                    let mut cur = st; let mut first = true;
                    while self.eat(b',') {
                        let it = self.ty()?; let v = self.konst(&it)?;
                        let k = if let V::I(k) = v { crate::expr::sx(k as u128, it.bits()) as i64 } else { return Err("gep index".into()); };
                        if first { addr = addr.wrapping_add((k as u64).wrapping_mul(cur.size())); first = false; }
                        else { let (o, ft) = cur.field(k as u64); addr = addr.wrapping_add(o); cur = ft; }
                    }
                    self.want(b')')?; V::I(addr)
                }
                "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "addrspacecast" | "trunc" => { self.want(b'(')?; let ft = self.ty()?; let v = self.konst(&ft)?; if !self.eatid("to") { return Err("cast".into()); } let tt = self.ty()?; self.want(b')')?;
                    match v { V::I(x) => V::I((x as u128 & crate::expr::mask(tt.bits().min(64))) as u64), v => v } }
                "sub" | "add" | "xor" => { while !self.is(b'(') { self.nx(); } self.want(b'(')?; let ta = self.ty()?; let a = self.konst(&ta)?; self.want(b',')?; let tb = self.ty()?; let b = self.konst(&tb)?; self.want(b')')?;
                    match (a, b) { (V::I(x), V::I(y)) => V::I((match s.as_str() { "sub" => x.wrapping_sub(y), "add" => x.wrapping_add(y), _ => x ^ y }) & crate::expr::mask(ta.bits()) as u64), _ => return Err("constexpr".into()) } }
                "dso_local_equivalent" | "no_cfi" => self.konst(t)?,
                _ => return Err(format!("constant {s}")) },
            T::Glob(g) => V::I(self.m().addr_of(&g)?),
            T::CStr(b) => V::A(Rc::new(b.into_iter().map(|c| V::I(c as u64)).collect())),
            T::P(b'[') => V::A(Rc::new(self.klist(b']')?)),
            T::P(b'{') => V::A(Rc::new(self.klist(b'}')?)),
            T::P(b'<') => if self.eat(b'{') { let v = self.klist(b'}')?; self.want(b'>')?; V::A(Rc::new(v)) } else { V::A(Rc::new(self.klist(b'>')?)) },
            t => return Err(format!("constant {:?}", t)),
        })
    }
    fn klist(&mut self, end: u8) -> Res<Vec<V>> {
        let mut v = vec![];
        if self.eat(end) { return Ok(v); }
        loop { let t = self.ty()?; v.push(self.konst(&t)?); if self.eat(end) { return Ok(v); } self.want(b',')?; }
    }
    fn op(&mut self, t: &Ty) -> Res<Op> {
        if let T::Loc(n) = self.pk().clone() { self.i += 1; return Ok(Op::R(self.reg(&n))); }
        if *t == Ty::Other { // metadata operand: skip to ',' or ')'
            let mut d = 0;
            loop { match self.pk() { T::P(b'(') | T::P(b'{') => { d += 1; self.i += 1; } T::P(b')') if d == 0 => break, T::P(b')') | T::P(b'}') => { d -= 1; self.i += 1; } T::P(b',') if d == 0 => break, T::End => break, _ => self.i += 1 } }
            return Ok(Op::K(V::I(0)));
        }
        Ok(Op::K(self.konst(t)?))
    }
    fn tyop(&mut self) -> Res<(Ty, Op)> { let t = self.ty()?; self.attrs(); let o = self.op(&t)?; Ok((t, o)) }
    fn label(&mut self) -> Res<u32> {
        if !self.eatid("label") { return Err(format!("label, got {:?}", self.pk())); }
        match self.nx() { T::Loc(n) => self.blocks.get(&n).copied().ok_or_else(|| format!("block {n}")), t => Err(format!("label {:?}", t)) }
    }
    fn flags(&mut self) { while let T::Id(s) = self.pk() { if matches!(s.as_str(), "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "volatile" | "atomic" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "weak") { self.i += 1; } else if s == "inrange" { self.i += 1; self.skip_parens(); } else { break; } } }

    fn call(&mut self, invoke: bool) -> Res<Call> {
        // calling convention and return attributes
        self.flags();
        self.attrs();
        let mut ret = self.ty()?;
        if self.is(b'(') { // function type: parameters follow
            self.skip_parens();
        }
        let _ = &mut ret;
        self.attrs();
        let callee = match self.nx() {
            T::Glob(g) => { let m = self.m(); let g = m.alias.get(&g).cloned().unwrap_or(g); match m.fmap.get(&g) { Some(&i) => Callee::Fn(i), None => { let a = m.addr_of(&g)?; Callee::Ind(Op::K(V::I(a))) } } }
            T::Loc(n) => Callee::Ind(Op::R(self.reg(&n))),
            T::Id(s) if s == "asm" => { while !matches!(self.pk(), T::P(b'(')) { self.nx(); } Callee::Asm }
            T::Id(s) if s == "null" => Callee::Ind(Op::K(V::I(0))),
            T::Id(_) => { self.i -= 1; Callee::Ind(Op::K(self.konst(&Ty::Ptr)?)) }
            t => return Err(format!("callee {:?}", t)),
        };
        self.want(b'(')?;
        let mut args = vec![];
        if !self.eat(b')') { loop {
            let t = self.ty()?; self.attrs();
            let o = self.op(&t)?;
            args.push((o, t));
            if self.eat(b')') { break; }
            self.want(b',')?;
        } }
        let mut inv = None;
        if invoke {
            while !self.isid("to") { if *self.pk() == T::End { return Err("invoke".into()); } self.nx(); }
            self.nx();
            let n = self.label()?; if !self.eatid("unwind") { return Err("unwind".into()); } let u = self.label()?;
            inv = Some((n, u));
        }
        Ok(Call { callee, args, ret, inv })
    }

    fn ins(&mut self) -> Res<Ins> {
        let mut d = u32::MAX;
        if let T::Loc(n) = self.pk().clone() { if *self.pk1() == T::P(b'=') { d = self.reg(&n); self.i += 2; } }
        let opn = match self.nx() { T::Id(s) => s, t => return Err(format!("instruction {:?}", t)) };
        let i = match opn.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                self.flags(); let (t, a) = self.tyop()?; self.want(b',')?; let b = self.op(&t)?;
                let k = match opn.as_str() { "add" => B::Add, "sub" => B::Sub, "mul" => B::Mul, "udiv" => B::UDiv, "sdiv" => B::SDiv, "urem" => B::URem, "srem" => B::SRem, "and" => B::And, "or" => B::Or, "xor" => B::Xor, "shl" => B::Shl, "lshr" => B::LShr, _ => B::AShr };
                I::Bin(k, t, a, b) }
            "icmp" => { self.flags(); let p = match self.nx() { T::Id(s) => match s.as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, _ => return Err("pred".into()) }, _ => return Err("pred".into()) };
                let (t, a) = self.tyop()?; self.want(b',')?; let b = self.op(&t)?; I::ICmp(p, t, a, b) }
            "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "addrspacecast" => { self.flags(); let (ft, a) = self.tyop()?; if !self.eatid("to") { return Err("to".into()); } let tt = self.ty()?;
                let k = match opn.as_str() { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "bitcast" | "addrspacecast" => Cast::Bit, _ => if ft.bits() > tt.bits() { Cast::Trunc } else { Cast::ZExt } };
                I::Cast(k, ft, tt, a) }
            "load" => { self.flags(); let t = self.ty()?; self.want(b',')?; let (_, p) = self.tyop()?; I::Load(t, p) }
            "store" => { self.flags(); let (t, v) = self.tyop()?; self.want(b',')?; let (_, p) = self.tyop()?; I::Store(t, v, p) }
            "getelementptr" => { self.flags(); let st = self.ty()?; self.want(b',')?; let (bt, base) = self.tyop()?;
                if bt != Ty::Ptr { return Ok(Ins { d, i: I::Unsupported("vector getelementptr".into()), dbg: 0 }); }
                let mut off = 0i64; let mut dynx = vec![]; let mut cur = st; let mut first = true;
                while self.eat(b',') {
                    if !self.ty_start() { break; } // metadata
                    let (it, v) = self.tyop()?;
                    let w = it.bits();
                    let (sz, next) = if first { (cur.size(), None) } else { match &cur { Ty::Struct(..) => { let k = if let Op::K(V::I(k)) = v { k } else { return Err("struct index".into()); }; let (o, ft) = cur.field(k); off += o as i64; cur = ft; continue; } Ty::Arr(_, e) | Ty::Vec(_, e) => (e.size(), Some((**e).clone())), _ => return Err("gep type".into()) } };
                    match v { Op::K(V::I(k)) => off = off.wrapping_add((crate::expr::sx(k as u128, w) as i64).wrapping_mul(sz as i64)), v => dynx.push((v, w, sz)) }
                    if let Some(n) = next { cur = n; }
                    first = false;
                }
                I::Gep(base, off, dynx) }
            "alloca" => { while self.eatid("inalloca") || self.eatid("swifterror") {} let t = self.ty()?; let mut n = Op::K(V::I(1)); if self.eat(b',') { if self.ty_start() { n = self.tyop()?.1; } } I::Alloca(t, n) }
            "select" => { self.flags(); let (ct, c) = self.tyop()?; self.want(b',')?; let (t, a) = self.tyop()?; self.want(b',')?; let (_, b) = self.tyop()?; I::Select(ct, t, c, a, b) }
            "phi" => { self.flags(); let t = self.ty()?; let mut v = vec![]; loop { self.want(b'[')?; let o = self.op(&t)?; self.want(b',')?; let b = match self.nx() { T::Loc(n) => self.blocks.get(&n).copied().ok_or("phi block")?, _ => return Err("phi".into()) }; self.want(b']')?; v.push((b, o)); if !self.eat(b',') || !self.is(b'[') { break; } } I::Phi(v) }
            "br" => if self.isid("label") { I::Br(self.label()?) } else { let (_, c) = self.tyop()?; self.want(b',')?; let a = self.label()?; self.want(b',')?; let b = self.label()?; I::CondBr(c, a, b) },
            "switch" => { let (t, v) = self.tyop()?; self.want(b',')?; let dl = self.label()?; self.want(b'[')?; let mut cs = vec![]; while !self.eat(b']') { let ct = self.ty()?; let k = if let V::I(k) = self.konst(&ct)? { k } else { return Err("switch case".into()); }; self.want(b',')?; cs.push((k, self.label()?)); } I::Switch(t.bits(), v, dl, cs) }
            "call" => I::Call(self.call(false)?),
            "tail" | "musttail" | "notail" => { self.nx(); I::Call(self.call(false)?) }
            "invoke" => I::Call(self.call(true)?),
            "ret" => if self.isid("void") { I::Ret(None) } else { let (t, v) = self.tyop()?; I::Ret(Some((t, v))) },
            "unreachable" => I::Unreachable,
            "extractvalue" => { let (_, v) = self.tyop()?; let mut ix = vec![]; while self.eat(b',') { if let T::Num(_) = self.pk() { ix.push(self.num()? as u32); } else { break; } } I::Extract(v, ix) }
            "insertvalue" => { let (_, v) = self.tyop()?; self.want(b',')?; let (_, e) = self.tyop()?; let mut ix = vec![]; while self.eat(b',') { if let T::Num(_) = self.pk() { ix.push(self.num()? as u32); } else { break; } } I::Insert(v, e, ix) }
            "extractelement" => { let (_, v) = self.tyop()?; self.want(b',')?; let (_, i) = self.tyop()?; I::ExtEl(v, i) }
            "insertelement" => { let (_, v) = self.tyop()?; self.want(b',')?; let (_, e) = self.tyop()?; self.want(b',')?; let (_, i) = self.tyop()?; I::InsEl(v, e, i) }
            "shufflevector" => { let (_, a) = self.tyop()?; self.want(b',')?; let (_, b) = self.tyop()?; self.want(b',')?; let mt = self.ty()?; let mv = self.konst(&mt)?;
                let mk = match mv { V::A(v) => v.iter().map(|x| if let V::I(k) = x { Some(*k as u32) } else { None }).collect(), _ => return Err("shuffle mask".into()) }; I::Shuffle(a, b, mk) }
            "landingpad" => { self.ty()?; let mut cl = false; let mut v = vec![]; loop {
                if self.eatid("cleanup") { cl = true; }
                else if self.eatid("catch") { let (_, o) = self.tyop()?; v.push((false, matches!(o, Op::K(V::I(0))))); }
                else if self.eatid("filter") { let t = self.ty()?; let _ = self.konst(&t)?; v.push((true, matches!(t, Ty::Arr(0, _)))); }
                else { break; } } I::LPad(cl, v) }
            "resume" => { let (_, v) = self.tyop()?; I::Resume(v) }
            "atomicrmw" => { self.flags(); let op = match self.nx() { T::Id(s) => s, _ => return Err("rmw".into()) }; let (_, p) = self.tyop()?; self.want(b',')?; let (t, v) = self.tyop()?; I::Rmw(op, t, p, v) }
            "cmpxchg" => { self.flags(); let (_, p) = self.tyop()?; self.want(b',')?; let (t, a) = self.tyop()?; self.want(b',')?; let (_, b) = self.tyop()?; I::CmpXchg(t, p, a, b) }
            "fence" => I::Nop,
            "freeze" => { let (_, v) = self.tyop()?; I::Copy(v) }
            o => I::Unsupported(o.to_string()),
        };
        let mut dbg = 0;
        let mut k = self.i.saturating_sub(1);
        while k + 1 < self.buf.len() { if let (T::Meta(a), T::Meta(b)) = (&self.buf[k], &self.buf[k + 1]) { if a == "dbg" { dbg = b.parse().unwrap_or(0); } } k += 1; }
        Ok(Ins { d, i, dbg })
    }
}

impl Module {
    pub fn addr_of(&mut self, g: &str) -> Res<u64> {
        if let Some(a) = self.alias.get(g) { let a = a.clone(); return self.addr_of(&a); }
        if self.weak0.contains_key(g) { return Ok(0); }
        if let Some(&i) = self.gmap.get(g) { return Ok(self.globs[i as usize].addr); }
        if let Some(&i) = self.fmap.get(g) { return Ok(FUNC_BASE + 16 * (i as u64 + 1)); }
        Err(format!("unknown global {g}"))
    }
    pub fn fn_at(&self, a: u64) -> Option<u32> { if a <= FUNC_BASE || (a - FUNC_BASE) % 16 != 0 { return None; } let i = (a - FUNC_BASE) / 16 - 1; if (i as usize) < self.fns.len() { Some(i as u32) } else { None } }

    pub fn load(src: Vec<u8>) -> Res<Box<Module>> {
        let src = Rc::new(src);
        let mut m = Box::new(Module { src: src.clone(), fns: vec![], fmap: HashMap::new(), globs: vec![], gmap: HashMap::new(), weak0: HashMap::new(), alias: HashMap::new(), types: HashMap::new(), next_slot: 1 });
        let s: &[u8] = &src;
        let mut p = 0;
        let mut glines: Vec<(usize, usize)> = vec![];
        while p < s.len() {
            let e = s[p..].iter().position(|&c| c == b'\n').map_or(s.len(), |x| p + x);
            let line = &s[p..e];
            if line.starts_with(b"define ") || line.starts_with(b"declare ") {
                let at = line.iter().position(|&c| c == b'@').ok_or("define without name")?;
                let mut lx = Lex::new(&line[at..]);
                let name = match lx.next() { T::Glob(n) => n, _ => return Err("define name".into()) };
                if line.starts_with(b"declare extern_weak") { m.weak0.insert(name.clone(), ()); }
                let mut text = None;
                let mut next = e + 1;
                if line.starts_with(b"define ") {
                    let mut q = e + 1;
                    loop { let qe = s[q..].iter().position(|&c| c == b'\n').map_or(s.len(), |x| q + x); if &s[q..qe] == b"}" { text = Some((p, qe)); next = qe + 1; break; } if qe >= s.len() { return Err("unterminated function".into()); } q = qe + 1; }
                }
                let id = m.fns.len() as u32;
                m.fmap.insert(name.clone(), id);
                m.fns.push(FnEnt { name, text, parsed: None });
                p = next; continue;
            }
            if line.starts_with(b"@") { glines.push((p, e)); }
            if line.starts_with(b"%") { let l = String::from_utf8_lossy(line).into_owned(); if let Some((n, d)) = l.split_once(" = type ") { m.types.insert(n[1..].trim_matches('"').to_string(), d.to_string()); } }
            p = e + 1;
        }
        let mp: *mut Module = &mut *m;
        for (a, e) in glines {
            let line = &s[a..e];
            let mut ps = Ps::new(mp, line);
            let name = match ps.nx() { T::Glob(n) => n, _ => return Err("global".into()) };
            ps.want(b'=')?;
            let mut ext = false; let mut weak = false; let mut konst = false;
            loop {
                match ps.nx() {
                    T::Id(s) => match s.as_str() {
                        "external" => ext = true,
                        "extern_weak" => weak = true,
                        "global" => break,
                        "constant" => { konst = true; break; }
                        "alias" => { let t = ps.ty()?; let _ = t; ps.want(b',')?; ps.ty()?; if let T::Glob(g) = ps.nx() { m.alias.insert(name.clone(), g); } else { return Err("alias".into()); } break; }
                        _ => { if ps.is(b'(') { ps.skip_parens(); } }
                    },
                    T::End => return Err(format!("global {name}")),
                    _ => {}
                }
            }
            if m.alias.contains_key(&name) { continue; }
            if weak { m.weak0.insert(name, ()); continue; }
            let ty = ps.ty()?;
            let size = if ext { ty.size().max(8) } else { ty.size() };
            let addr = GLOB_BASE + m.next_slot * SLOT;
            m.next_slot += 1 + size / SLOT;
            let id = m.globs.len() as u32;
            m.gmap.insert(name.clone(), id);
            m.globs.push(GlobEnt { name, addr, size, konst, ext, init: if ext { None } else { Some((a, e)) }, ty });
        }
        Ok(m)
    }
    /// Initial bytes of a global.
    pub fn init(&mut self, g: usize) -> Res<Vec<u8>> {
        let src = self.src.clone();
        let mp: *mut Module = self;
        let ge = &self.globs[g];
        let mut out = vec![0u8; ge.size as usize];
        if let Some((a, e)) = ge.init {
            let mut ps = Ps::new(mp, &src[a..e]);
            loop { match ps.nx() { T::Id(s) if s == "global" || s == "constant" => break, T::End => return Err("init".into()), _ => {} } }
            let ty = ps.ty()?;
            let v = ps.konst(&ty).map_err(|x| format!("{}: {x}", ge.name))?;
            put(&ty, &v, 0, &mut out);
        }
        Ok(out)
    }
    pub fn func(&mut self, id: u32) -> Res<Rc<Func>> {
        if let Some(f) = &self.fns[id as usize].parsed { return Ok(f.clone()); }
        let (a, e) = self.fns[id as usize].text.ok_or_else(|| format!("no body for {}", self.fns[id as usize].name))?;
        let src = self.src.clone();
        let f = self.parse_fn(id, &src[a..e]).map_err(|x| format!("{}: {x}", self.fns[id as usize].name))?;
        let f = Rc::new(f);
        self.fns[id as usize].parsed = Some(f.clone());
        Ok(f)
    }
    fn parse_fn(&mut self, id: u32, text: &[u8]) -> Res<Func> {
        let mp: *mut Module = self;
        let hdr_end = text.iter().position(|&c| c == b'\n').unwrap();
        let mut ps = Ps::new(mp, &text[..hdr_end]);
        ps.nx(); // define
        ps.attrs();
        let ret = ps.ty()?;
        match ps.nx() { T::Glob(_) => {}, t => return Err(format!("header {:?}", t)) }
        ps.want(b'(')?;
        let mut params = vec![]; let mut unnamed = 0;
        if !ps.eat(b')') { loop {
            if *ps.pk() == T::Dots { ps.nx(); ps.want(b')')?; break; }
            let t = ps.ty()?; ps.attrs();
            let r = if let T::Loc(n) = ps.pk().clone() { ps.nx(); if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; } ps.reg(&n) } else { let n = unnamed.to_string(); unnamed += 1; ps.reg(&n) };
            params.push((r, t));
            if ps.eat(b')') { break; }
            ps.want(b',')?;
        } }
        // logical lines
        let body = &text[hdr_end + 1..];
        let mut lines: Vec<(Option<String>, Vec<u8>)> = vec![]; // (label, text)
        let mut cont = false;
        for raw in body.split(|&c| c == b'\n') {
            let t: &[u8] = { let s = raw.iter().position(|c| !c.is_ascii_whitespace()).unwrap_or(raw.len()); &raw[s..] };
            if t.is_empty() || t[0] == b';' || t == b"}" || t.starts_with(b"#dbg_") { continue; }
            if cont { let l = lines.last_mut().unwrap(); l.1.push(b' '); l.1.extend_from_slice(t); if t[0] == b']' { cont = false; } continue; }
            if !raw[0].is_ascii_whitespace() {
                // label
                let mut lx = Lex::new(t);
                let n = match lx.next() { T::Id(n) | T::Num(n) => n, T::Str(b) => String::from_utf8_lossy(&b).into_owned(), x => return Err(format!("label {:?}", x)) };
                lines.push((Some(n), vec![])); continue;
            }
            if t.starts_with(b"to label") || t == b"cleanup" || t.starts_with(b"cleanup,") || t.starts_with(b"catch ") || t.starts_with(b"filter ") { let l = lines.last_mut().unwrap(); l.1.push(b' '); l.1.extend_from_slice(t); continue; }
            lines.push((None, t.to_vec()));
            if t.starts_with(b"switch ") && t.last() == Some(&b'[') { cont = true; }
        }
        // blocks
        let mut names: Vec<String> = vec![];
        if lines.first().map_or(true, |l| l.0.is_none()) { names.push(unnamed.to_string()); lines.insert(0, (Some(unnamed.to_string()), vec![])); } else { names.push(lines[0].0.clone().unwrap()); }
        for l in lines.iter().skip(1) { if let Some(n) = &l.0 { names.push(n.clone()); } }
        for (i, n) in names.iter().enumerate() { ps.blocks.insert(n.clone(), i as u32); }
        let mut blocks: Vec<Block> = vec![];
        for (lab, t) in &lines {
            if let Some(n) = lab { blocks.push(Block { name: n.clone(), ins: vec![] }); continue; }
            ps.load(unsafe { std::mem::transmute::<&[u8], &[u8]>(&t[..]) });
            let i = ps.ins().map_err(|e| format!("{e} in `{}`", String::from_utf8_lossy(t)))?;
            blocks.last_mut().unwrap().ins.push(i);
        }
        Ok(Func { id, name: self.fns[id as usize].name.clone(), params, ret, blocks, nregs: ps.regs.len() as u32 })
    }
}

pub fn put(t: &Ty, v: &V, off: usize, out: &mut [u8]) {
    match (t, v) {
        (Ty::Arr(_, e), V::A(vs)) => for (i, x) in vs.iter().enumerate() { put(e, x, off + i * e.size() as usize, out); },
        (Ty::Vec(_, e), V::A(vs)) => for (i, x) in vs.iter().enumerate() { put(e, x, off + i * e.size() as usize, out); },
        (Ty::Struct(f, _), V::A(vs)) => for (i, x) in vs.iter().enumerate() { let (o, _) = t.field(i as u64); put(&f[i], x, off + o as usize, out); },
        (t, V::I(x)) => { let n = t.store() as usize; for i in 0..n { out[off + i] = if i < 8 { (x >> (8 * i)) as u8 } else { 0 }; } }
        (t, V::W(x)) => { let n = t.store() as usize; for i in 0..n { out[off + i] = (**x >> (8 * i)) as u8; } }
        _ => panic!("put {:?} {:?}", t, v),
    }
}
