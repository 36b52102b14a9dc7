//! Parser for textual LLVM IR (as printed by rustc's LLVM) and lowering into a compact form.

use std::collections::HashMap;
use std::rc::Rc;
use crate::term::T;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, I(u16), Ptr, F(u16), Arr(u64, Rc<Ty>), St(Rc<Vec<Ty>>, bool), Vec(u64, Rc<Ty>), Other }

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::I(w) => { let b = ((*w as u64 + 7) / 8).next_power_of_two(); b.min(16) }
            Ty::Ptr => 8,
            Ty::F(w) => *w as u64 / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::St(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Vec(n, t) => (n * t.bits() as u64 / 8).max(1).next_power_of_two(),
            _ => 1,
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::I(w) => { let b = (*w as u64 + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr => 8,
            Ty::F(w) => *w as u64 / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::St(f, packed) => {
                let mut o = 0;
                for t in f.iter() { if !packed { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); }
                if !packed { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            _ => 0,
        }
    }
    pub fn bits(&self) -> u16 {
        match self { Ty::I(w) | Ty::F(w) => *w, Ty::Ptr => 64, Ty::Vec(n, t) => *n as u16 * t.bits(), _ => panic!("bits of {:?}", self) }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            Ty::St(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    if j as u64 == i { return (o, t.clone()); }
                    o += t.size();
                }
                panic!("field index")
            }
            _ => panic!("field of scalar"),
        }
    }
    pub fn count(&self) -> u64 { match self { Ty::Arr(n, _) | Ty::Vec(n, _) => *n, Ty::St(f, _) => f.len() as u64, _ => 1 } }
    pub fn is_agg(&self) -> bool { matches!(self, Ty::Arr(..) | Ty::St(..) | Ty::Vec(..)) }
}

#[derive(Clone, Debug)]
pub enum V { C(u128), T(T), A(Rc<Vec<V>>), U }

#[derive(Clone, Debug)]
pub enum Opd { R(u32), K(V) }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp { Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK { Trunc, ZExt, SExt, Bit }

#[derive(Clone, Debug)]
pub enum Callee { Direct(u32), Ext(Rc<str>), Ind(Opd), Asm }

#[derive(Debug)]
pub enum Ins {
    Bin(u32, BinOp, Ty, Opd, Opd),
    Icmp(u32, Pred, Ty, Opd, Opd),
    Select(u32, Ty, bool, Opd, Opd, Opd),
    Cast(u32, CastK, Ty, Ty, Opd),
    Load(u32, Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(u32, Opd, i64, Vec<(Opd, u16, u64)>),
    Alloca(u32, u64, u64),
    Call { dst: Option<u32>, callee: Callee, args: Vec<(Ty, Opd)>, ret: Ty, normal: Option<u32> },
    ExtractV(u32, Vec<u64>, Opd),
    InsertV(u32, Ty, Vec<u64>, Opd, Opd),
    ExtractE(u32, Ty, Opd, Opd),
    InsertE(u32, Ty, Opd, Opd, Opd),
    Shuffle(u32, u64, Opd, Opd, Vec<i64>),
    Copy(u32, Opd),
    Rmw(u32, Rc<str>, Ty, Opd, Opd),
    CmpXchg(u32, Ty, Opd, Opd, Opd),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u16, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    Dead(String),
    Unsupported(String),
}

#[derive(Debug)]
pub struct Block { pub name: String, pub phis: Vec<(u32, Vec<(u32, Opd)>)>, pub ins: Vec<Ins> }
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub rty: Vec<Ty>,
    pub ipdom: Vec<Option<u32>>, // None = only the function's exit
    pub can_ret: Vec<bool>,
    pub livein: Vec<Rc<Vec<u32>>>,
}

pub struct Global { pub name: String, pub addr: u64, pub size: u64, pub init: Vec<u8>, pub constant: bool, pub tls: bool }

pub struct Module {
    lines: Vec<String>,
    pub fnames: HashMap<String, u32>,
    pub fdefs: Vec<(String, usize, usize)>, // name, header line, end line
    pub funcs: std::cell::RefCell<Vec<Option<Rc<Func>>>>,
    pub gaddr: HashMap<String, u64>,
    pub globals: Vec<Global>,
    pub extaddr: std::cell::RefCell<HashMap<String, u64>>,
}
pub const FN_BASE: u64 = 0x10_0000;
pub const EXT_BASE: u64 = 0x80_0000;
pub const GLOB_BASE: u64 = 0x100_0000;

// ---------- tokens ----------
#[derive(Clone, Debug, PartialEq)]
pub enum Tok { W(String), L(String), G(String), M(String), S(Vec<u8>), N(i128), P(char) }

pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    let string = |i: &mut usize| -> Vec<u8> {
        // b[*i] == '"'
        *i += 1;
        let mut v = vec![];
        while b[*i] != b'"' {
            if b[*i] == b'\\' {
                if b[*i + 1] == b'\\' { v.push(b'\\'); *i += 2; }
                else { v.push(u8::from_str_radix(std::str::from_utf8(&b[*i + 1..*i + 3]).unwrap(), 16).unwrap()); *i += 3; }
            } else { v.push(b[*i]); *i += 1; }
        }
        *i += 1;
        v
    };
    while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() { i += 1; continue; }
        if c == b';' { break; }
        if c == b'%' || c == b'@' || c == b'!' {
            i += 1;
            let name = if i < b.len() && b[i] == b'"' { String::from_utf8_lossy(&string(&mut i)).into_owned() } else {
                let st = i;
                while i < b.len() && idc(b[i]) { i += 1; }
                s[st..i].to_string()
            };
            out.push(match c { b'%' => Tok::L(name), b'@' => Tok::G(name), _ => Tok::M(name) });
            continue;
        }
        if c == b'c' && i + 1 < b.len() && b[i + 1] == b'"' { i += 1; let v = string(&mut i); out.push(Tok::S(v)); continue; }
        if c == b'"' { let v = string(&mut i); out.push(Tok::W(format!("\"{}", String::from_utf8_lossy(&v)))); continue; }
        if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) {
            let st = i;
            i += 1;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || b[i] == b'+') { i += 1; }
            let t = &s[st..i];
            match t.parse::<i128>() {
                Ok(n) => out.push(Tok::N(n)),
                Err(_) => match t.parse::<u128>() { Ok(n) => out.push(Tok::N(n as i128)), Err(_) => out.push(Tok::W(t.to_string())) },
            }
            continue;
        }
        if idc(c) {
            let st = i;
            while i < b.len() && idc(b[i]) { i += 1; }
            out.push(Tok::W(s[st..i].to_string()));
            continue;
        }
        out.push(Tok::P(c as char));
        i += 1;
    }
    out
}

struct Ps<'a> { t: &'a [Tok], i: usize }
type R<X> = Result<X, String>;
impl<'a> Ps<'a> {
    fn peek(&self) -> Option<&'a Tok> { self.t.get(self.i) }
    fn next(&mut self) -> R<&'a Tok> { let r = self.t.get(self.i).ok_or("unexpected end")?; self.i += 1; Ok(r) }
    fn isw(&self, w: &str) -> bool { matches!(self.peek(), Some(Tok::W(x)) if x == w) }
    fn isp(&self, c: char) -> bool { self.peek() == Some(&Tok::P(c)) }
    fn eatw(&mut self, w: &str) -> bool { if self.isw(w) { self.i += 1; true } else { false } }
    fn eatp(&mut self, c: char) -> bool { if self.isp(c) { self.i += 1; true } else { false } }
    fn expp(&mut self, c: char) -> R<()> { if self.eatp(c) { Ok(()) } else { Err(format!("expected {:?} got {:?}", c, self.peek())) } }
    fn num(&mut self) -> R<i128> { match self.next()? { Tok::N(n) => Ok(*n), x => Err(format!("number, got {:?}", x)) } }
    fn skip_parens(&mut self) -> R<()> {
        self.expp('(')?;
        let mut d = 1;
        while d > 0 { match self.next()? { Tok::P('(') => d += 1, Tok::P(')') => d -= 1, _ => {} } }
        Ok(())
    }
    fn is_type(&self) -> bool {
        match self.peek() {
            Some(Tok::W(w)) => matches!(w.as_str(), "ptr" | "void" | "float" | "double" | "half" | "label" | "metadata" | "token" | "x86_fp80" | "fp128") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())),
            Some(Tok::P(c)) => matches!(c, '[' | '{' | '<'),
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        match self.next()? {
            Tok::W(w) => Ok(match w.as_str() {
                "ptr" => { if self.isw("addrspace") { self.i += 1; self.skip_parens()?; } Ty::Ptr }
                "void" => Ty::Void, "float" => Ty::F(32), "double" => Ty::F(64), "half" => Ty::F(16), "fp128" => Ty::F(128),
                "label" | "metadata" | "token" | "x86_fp80" => Ty::Other,
                _ if w.starts_with('i') => Ty::I(w[1..].parse().map_err(|_| format!("type {}", w))?),
                _ => return Err(format!("type {}", w)),
            }),
            Tok::P('[') => { let n = self.num()? as u64; if !self.eatw("x") { return Err("x".into()); } let t = self.ty()?; self.expp(']')?; Ok(Ty::Arr(n, Rc::new(t))) }
            Tok::P('{') => Ok(Ty::St(Rc::new(self.fields('}')?), false)),
            Tok::P('<') => {
                if self.eatp('{') { let f = self.fields('}')?; self.expp('>')?; return Ok(Ty::St(Rc::new(f), true)); }
                let n = self.num()? as u64; if !self.eatw("x") { return Err("x".into()); } let t = self.ty()?; self.expp('>')?; Ok(Ty::Vec(n, Rc::new(t)))
            }
            x => Err(format!("type {:?}", x)),
        }
    }
    fn fields(&mut self, end: char) -> R<Vec<Ty>> {
        let mut v = vec![];
        while !self.eatp(end) { v.push(self.ty()?); self.eatp(','); }
        Ok(v)
    }
    /// skip attributes up to a type
    fn attrs_to_type(&mut self) -> R<()> {
        while !self.is_type() {
            match self.next()? {
                Tok::W(_) => { if self.isp('(') { self.skip_parens()?; } else if let Some(Tok::N(_)) = self.peek() { self.i += 1; } }
                Tok::P('#') => { self.i += 1; }
                x => return Err(format!("attr {:?}", x)),
            }
        }
        Ok(())
    }
    fn is_value(&self) -> bool {
        match self.peek() {
            Some(Tok::L(_)) | Some(Tok::G(_)) | Some(Tok::N(_)) | Some(Tok::S(_)) => true,
            Some(Tok::P(c)) => matches!(c, '[' | '{' | '<'),
            Some(Tok::W(w)) => matches!(w.as_str(), "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "inttoptr" | "trunc" | "sub" | "add" | "xor" | "mul" | "shl" | "bitcast" | "zext" | "sext" | "asm" | "splat" | "blockaddress" | "ptrtoaddr") || w.starts_with("0x") || w.contains('.') && w.as_bytes()[0].is_ascii_digit() || w.starts_with('-'),
            _ => false,
        }
    }
    fn attrs_to_value(&mut self) -> R<()> {
        while !self.is_value() {
            match self.next()? {
                Tok::W(w) => { if self.isp('(') { self.skip_parens()?; } else if (w == "align" || w == "dereferenceable") && matches!(self.peek(), Some(Tok::N(_))) { self.i += 1; } }
                x => return Err(format!("attr {:?}", x)),
            }
        }
        Ok(())
    }
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
        let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
        let mut m = Module { lines: vec![], fnames: HashMap::new(), fdefs: vec![], funcs: Default::default(), gaddr: HashMap::new(), globals: vec![], extaddr: Default::default() };
        let mut gl = vec![];
        let mut i = 0;
        while i < lines.len() {
            let l = &lines[i];
            if l.starts_with("define ") {
                let name = lex(l).into_iter().find_map(|t| if let Tok::G(n) = t { Some(n) } else { None }).ok_or("define without name")?;
                let st = i;
                while lines[i] != "}" { i += 1; }
                m.fnames.insert(name.clone(), m.fdefs.len() as u32);
                m.fdefs.push((name, st, i));
            } else if l.starts_with('@') { gl.push(i); }
            i += 1;
        }
        m.funcs.borrow_mut().resize_with(m.fdefs.len(), || None);
        // globals: types first, to assign addresses
        let mut at = GLOB_BASE;
        let mut parsed = vec![];
        for i in gl {
            let toks = lex(&lines[i]);
            let name = if let Tok::G(n) = &toks[0] { n.clone() } else { return Err("global".into()) };
            let k = match toks.iter().position(|t| matches!(t, Tok::W(w) if w == "global" || w == "constant" || w == "alias")) { Some(k) => k, None => return Err(format!("global {}", lines[i])) };
            if matches!(&toks[k], Tok::W(w) if w == "alias") {
                if let Some(Tok::G(t)) = toks[k..].iter().find(|t| matches!(t, Tok::G(_))) { let t = t.clone(); parsed.push((name, None, k, toks, Some(t))); }
                continue;
            }
            let constant = matches!(&toks[k], Tok::W(w) if w == "constant");
            let mut p = Ps { t: &toks, i: k + 1 };
            let ty = p.ty()?;
            let pos = p.i;
            let al = toks.iter().enumerate().skip(pos).rev().find_map(|(j, t)| if matches!(t, Tok::W(w) if w == "align") { if let Some(Tok::N(n)) = toks.get(j + 1) { Some(*n as u64) } else { None } } else { None }).unwrap_or(16).max(16);
            at = (at + al - 1) / al * al;
            m.gaddr.insert(name.clone(), at);
            let size = ty.size();
            let external = toks[..k].iter().any(|t| matches!(t, Tok::W(w) if w == "external" || w == "extern_weak"));
            let tls = toks[..k].iter().any(|t| matches!(t, Tok::W(w) if w == "thread_local"));
            let addr = at;
            at += size.max(1) + 32;
            m.globals.push(Global { name: name.clone(), addr, size, init: vec![], constant, tls });
            if !external { parsed.push((name, Some((ty, m.globals.len() - 1)), pos, toks, None)); } else { let g = m.globals.last_mut().unwrap(); g.init = vec![0; size as usize]; }
        }
        for (name, _, _, _, alias) in &parsed { if let Some(t) = alias {
            if let Some(a) = m.gaddr.get(t).copied() { m.gaddr.insert(name.clone(), a); }
            else if let Some(f) = m.fnames.get(t).copied() { m.fnames.insert(name.clone(), f); }
        } }
        for (_, g, pos, toks, _) in &parsed { if let Some((ty, gi)) = g {
            let mut p = Ps { t: toks, i: *pos };
            let v = m.konst(&mut p, ty)?;
            let mut out = vec![0u8; ty.size() as usize];
            flatten(&v, ty, 0, &mut out);
            m.globals[*gi].init = out;
        } }
        m.lines = lines;
        Ok(m)
    }

    pub fn addr_of(&self, name: &str) -> R<u64> {
        if let Some(a) = self.gaddr.get(name) { return Ok(*a); }
        if let Some(f) = self.fnames.get(name) { return Ok(FN_BASE + *f as u64 * 16); }
        let mut e = self.extaddr.borrow_mut();
        let n = e.len() as u64;
        Ok(*e.entry(name.to_string()).or_insert(EXT_BASE + n * 16))
    }

    /// Parse a constant of type `ty`.
    fn konst(&self, p: &mut Ps, ty: &Ty) -> R<V> {
        let t = p.next()?.clone();
        let w = if ty.is_agg() || matches!(ty, Ty::Void | Ty::Other) { 64 } else { ty.bits() };
        Ok(match &t {
            Tok::N(n) => V::C(*n as u128 & crate::term::mask(w)),
            Tok::G(n) => V::C(self.addr_of(n)? as u128),
            Tok::S(b) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u128)).collect())),
            Tok::P('[') => { let et = elem(ty, 0); let _ = et; V::A(Rc::new(self.konsts(p, ']')?)) }
            Tok::P('{') => V::A(Rc::new(self.konsts(p, '}')?)),
            Tok::P('<') => {
                if p.eatp('{') { let v = self.konsts(p, '}')?; p.expp('>')?; V::A(Rc::new(v)) } else { V::A(Rc::new(self.konsts(p, '>')?)) }
            }
            Tok::W(s) => match s.as_str() {
                "true" => V::C(1), "false" => V::C(0), "null" | "none" => V::C(0),
                "undef" | "poison" => undef(ty),
                "zeroinitializer" => zero(ty),
                "splat" => { p.expp('(')?; let t = p.ty()?; let v = self.konst(p, &t)?; p.expp(')')?; V::A(Rc::new(vec![v; ty.count() as usize])) }
                "ptrtoint" | "inttoptr" | "trunc" | "zext" | "sext" | "bitcast" | "ptrtoaddr" => {
                    while !p.isp('(') { p.i += 1; }
                    p.expp('(')?;
                    let t = p.ty()?; let v = self.konst(p, &t)?;
                    if !p.eatw("to") { return Err("to".into()); }
                    let t2 = p.ty()?; p.expp(')')?;
                    let v = kv(&v)?;
                    V::C(if s == "sext" { crate::term::sx(v, t.bits()) as u128 } else { v } & crate::term::mask(t2.bits()))
                }
                "getelementptr" => {
                    while !p.isp('(') { p.i += 1; }
                    p.expp('(')?;
                    let bt = p.ty()?; p.expp(',')?;
                    let t = p.ty()?; let base = self.konst(p, &t)?;
                    let mut a = kv(&base)? as u64;
                    let mut cur = bt; let mut first = true;
                    while p.eatp(',') {
                        while p.eatw("inrange") { p.skip_parens()?; }
                        let it = p.ty()?; let iv = self.konst(p, &it)?; let iv = crate::term::sx(kv(&iv)?, it.bits()) as i64;
                        if first { a = a.wrapping_add((iv * cur.size() as i64) as u64); first = false; }
                        else if let Ty::St(..) = cur { let (o, t) = cur.field(iv as u64); a = a.wrapping_add(o); cur = t; }
                        else { let (_, t) = cur.field(0); a = a.wrapping_add((iv * t.size() as i64) as u64); cur = t; }
                    }
                    p.expp(')')?;
                    V::C(a as u128)
                }
                "sub" | "add" | "xor" | "mul" | "shl" => {
                    while !p.isp('(') { p.i += 1; }
                    p.expp('(')?;
                    let t1 = p.ty()?; let a = kv(&self.konst(p, &t1)?)?; p.expp(',')?;
                    let t2 = p.ty()?; let b = kv(&self.konst(p, &t2)?)?; p.expp(')')?;
                    let r = match s.as_str() { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), "xor" => a ^ b, "mul" => a.wrapping_mul(b), _ => a << b };
                    V::C(r & crate::term::mask(t1.bits()))
                }
                _ if matches!(ty, Ty::F(_)) => {
                    if let Some(h) = s.strip_prefix("0x") { V::C(u128::from_str_radix(h, 16).map_err(|e| e.to_string())?) }
                    else { V::C(s.parse::<f64>().map_err(|e| e.to_string())?.to_bits() as u128) }
                }
                _ => return Err(format!("constant {}", s)),
            },
            x => return Err(format!("constant {:?}", x)),
        })
    }
    fn konsts(&self, p: &mut Ps, end: char) -> R<Vec<V>> {
        let mut v = vec![];
        while !p.eatp(end) { let t = p.ty()?; v.push(self.konst(p, &t)?); p.eatp(','); }
        Ok(v)
    }

    pub fn func(&self, id: u32) -> R<Rc<Func>> {
        if let Some(f) = &self.funcs.borrow()[id as usize] { return Ok(f.clone()); }
        let f = Rc::new(self.parse_fn(id)?);
        self.funcs.borrow_mut()[id as usize] = Some(f.clone());
        Ok(f)
    }

    fn parse_fn(&self, id: u32) -> R<Func> {
        let (name, st, en) = &self.fdefs[id as usize];
        let head = lex(&self.lines[*st]);
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut rty: Vec<Ty> = vec![];
        let mut params = vec![];
        let mut unnamed = 0;
        {
            let gi = head.iter().position(|t| matches!(t, Tok::G(_))).unwrap();
            let mut p = Ps { t: &head, i: gi + 1 };
            p.expp('(')?;
            let mut anon = 0;
            while !p.eatp(')') {
                let ty = p.ty()?;
                loop {
                    match p.peek() {
                        Some(Tok::L(n)) => { p.i += 1; if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; } regs.insert(n.clone(), rty.len() as u32); params.push(rty.len() as u32); rty.push(ty.clone()); break; }
                        Some(Tok::P(',')) | Some(Tok::P(')')) => { regs.insert(anon.to_string(), rty.len() as u32); params.push(rty.len() as u32); rty.push(ty.clone()); anon += 1; unnamed += 1; break; }
                        Some(Tok::W(_)) => { p.i += 1; if p.isp('(') { p.skip_parens()?; } else if let Some(Tok::N(_)) = p.peek() { p.i += 1; } }
                        x => return Err(format!("param {:?}", x)),
                    }
                }
                p.eatp(',');
            }
        }
        // gather logical lines
        let mut bnames: HashMap<String, u32> = HashMap::new();
        let mut body: Vec<(String, Vec<String>)> = vec![];
        let mut i = st + 1;
        while i < *en {
            let l = self.lines[i].trim();
            i += 1;
            if l.is_empty() || l.starts_with("#dbg") || l.starts_with(';') { continue; }
            if !self.lines[i - 1].starts_with(' ') {
                // label
                let n = if l.starts_with('"') { let t = lex(l); if let Tok::W(w) = &t[0] { w[1..].to_string() } else { return Err("label".into()) } } else { l.split(':').next().unwrap().to_string() };
                bnames.insert(n.clone(), body.len() as u32);
                body.push((n, vec![]));
                continue;
            }
            if body.is_empty() { let n = unnamed.to_string(); bnames.insert(n.clone(), 0); body.push((n, vec![])); }
            let cur = &mut body.last_mut().unwrap().1;
            let cont = l.starts_with("to label") || l.starts_with("cleanup") && !l.starts_with("cleanupret") || l.starts_with("catch ") || l.starts_with("filter ") || l.starts_with(']') || cur.last().map_or(false, |p: &String| p.starts_with("switch ") && !p.ends_with(']'));
            if cont { let p = cur.last_mut().unwrap(); p.push(' '); p.push_str(strip_md(l)); } else { cur.push(strip_md(l).to_string()); }
        }
        let mut cx = FnCx { m: self, regs, rty, bnames };
        let mut blocks = vec![];
        // first: tokenise and declare result registers so forward references resolve
        let mut toks: Vec<Vec<Vec<Tok>>> = vec![];
        for (_, ls) in &body {
            let mut v = vec![];
            for l in ls {
                let t = lex(l);
                if t.len() > 1 && t[1] == Tok::P('=') { if let Tok::L(n) = &t[0] { let k = cx.rty.len() as u32; cx.regs.insert(n.clone(), k); cx.rty.push(Ty::Other); } }
                v.push(t);
            }
            toks.push(v);
        }
        for (bi, (bname, ls)) in body.iter().enumerate() {
            let mut b = Block { name: bname.clone(), phis: vec![], ins: vec![] };
            for (li, t) in toks[bi].iter().enumerate() {
                match cx.ins(t, &mut b) { Ok(()) => {}, Err(e) => b.ins.push(Ins::Unsupported(format!("{} in `{}`", e, ls[li]))) }
            }
            blocks.push(b);
        }
        let rty = cx.rty;
        let (ipdom, can_ret) = postdom(&blocks);
        let livein = liveness(&blocks, rty.len());
        Ok(Func { name: name.clone(), params, blocks, rty, ipdom, can_ret, livein })
    }
}

fn strip_md(l: &str) -> &str {
    // drop trailing metadata attachments ", !dbg !123"
    match l.find(", !") { Some(i) => &l[..i], None => l }
}
fn elem(ty: &Ty, i: u64) -> Ty { match ty { Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), Ty::St(f, _) => f.get(i as usize).cloned().unwrap_or(Ty::Other), _ => Ty::Other } }
fn kv(v: &V) -> R<u128> { match v { V::C(x) => Ok(*x), V::U => Ok(0), _ => Err("constant expression".into()) } }
pub fn zero(ty: &Ty) -> V { if ty.is_agg() { V::A(Rc::new((0..ty.count()).map(|i| zero(&elem(ty, i))).collect())) } else { V::C(0) } }
pub fn undef(ty: &Ty) -> V { if ty.is_agg() { V::A(Rc::new((0..ty.count()).map(|i| undef(&elem(ty, i))).collect())) } else { V::U } }
pub fn flatten(v: &V, ty: &Ty, off: usize, out: &mut [u8]) {
    match v {
        V::A(xs) => for (i, x) in xs.iter().enumerate() { let (o, t) = ty.field(i as u64); flatten(x, &t, off + o as usize, out); },
        V::C(c) => { let n = ((ty.bits() + 7) / 8) as usize; for k in 0..n { out[off + k] = (c >> (8 * k)) as u8; } }
        _ => {}
    }
}

fn succs(b: &Block) -> Vec<u32> {
    match b.ins.last() {
        Some(Ins::Br(x)) => vec![*x],
        Some(Ins::CondBr(_, x, y)) => vec![*x, *y],
        Some(Ins::Switch(_, _, d, cs)) => { let mut v = vec![*d]; v.extend(cs.iter().map(|c| c.1)); v }
        Some(Ins::Call { normal: Some(n), .. }) => vec![*n],
        _ => vec![],
    }
}
fn postdom(bs: &[Block]) -> (Vec<Option<u32>>, Vec<bool>) {
    let n = bs.len();
    let exit = n;
    let su: Vec<Vec<usize>> = bs.iter().map(|b| { let mut v: Vec<usize> = succs(b).into_iter().map(|x| x as usize).collect(); if let Some(Ins::Ret(_)) = b.ins.last() { v.push(exit); } v }).collect();
    let mut pr = vec![vec![]; n + 1];
    for (i, v) in su.iter().enumerate() { for &s in v { pr[s].push(i); } }
    // reverse post order of the reversed graph
    let mut order = vec![];
    let mut seen = vec![false; n + 1];
    let mut st = vec![(exit, 0usize)];
    seen[exit] = true;
    while let Some((x, k)) = st.pop() {
        if k < pr[x].len() { st.push((x, k + 1)); let y = pr[x][k]; if !seen[y] { seen[y] = true; st.push((y, 0)); } } else { order.push(x); }
    }
    let mut num = vec![usize::MAX; n + 1];
    for (i, &x) in order.iter().enumerate() { num[x] = i; }
    let mut id: Vec<Option<usize>> = vec![None; n + 1];
    id[exit] = Some(exit);
    let mut ch = true;
    while ch {
        ch = false;
        for &x in order.iter().rev() {
            if x == exit { continue; }
            let mut new: Option<usize> = None;
            for &s in &su[x] {
                if !seen[s] || id[s].is_none() { continue; }
                new = Some(match new { None => s, Some(mut a) => { let mut b = s; while a != b { while num[a] < num[b] { a = id[a].unwrap(); } while num[b] < num[a] { b = id[b].unwrap(); } } a } });
            }
            if new != id[x] { id[x] = new; ch = true; }
        }
    }
    ((0..n).map(|i| id[i].and_then(|d| if d == exit { None } else { Some(d as u32) })).collect(), (0..n).map(|i| seen[i]).collect())
}

fn uses(i: &Ins, f: &mut dyn FnMut(u32)) {
    let mut o = |x: &Opd| if let Opd::R(r) = x { f(*r) };
    match i {
        Ins::Bin(_, _, _, a, b) | Ins::Icmp(_, _, _, a, b) => { o(a); o(b) }
        Ins::Select(_, _, _, c, a, b) => { o(c); o(a); o(b) }
        Ins::Cast(_, _, _, _, a) | Ins::Load(_, _, a) | Ins::Copy(_, a) | Ins::ExtractV(_, _, a) => o(a),
        Ins::Store(_, a, b) => { o(a); o(b) }
        Ins::Gep(_, a, _, v) => { o(a); for x in v { o(&x.0) } }
        Ins::Call { callee, args, .. } => { if let Callee::Ind(a) = callee { o(a) } for a in args { o(&a.1) } }
        Ins::InsertV(_, _, _, a, b) | Ins::ExtractE(_, _, a, b) | Ins::Shuffle(_, _, a, b, _) | Ins::Rmw(_, _, _, a, b) => { o(a); o(b) }
        Ins::InsertE(_, _, a, b, c) | Ins::CmpXchg(_, _, a, b, c) => { o(a); o(b); o(c) }
        Ins::CondBr(a, _, _) | Ins::Switch(a, _, _, _) => o(a),
        Ins::Ret(Some(a)) => o(a),
        _ => {}
    }
}
fn def(i: &Ins) -> Option<u32> {
    match i {
        Ins::Bin(d, ..) | Ins::Icmp(d, ..) | Ins::Select(d, ..) | Ins::Cast(d, ..) | Ins::Load(d, ..) | Ins::Copy(d, ..) | Ins::ExtractV(d, ..) | Ins::Gep(d, ..) | Ins::Alloca(d, ..)
        | Ins::InsertV(d, ..) | Ins::ExtractE(d, ..) | Ins::Shuffle(d, ..) | Ins::Rmw(d, ..) | Ins::InsertE(d, ..) | Ins::CmpXchg(d, ..) => Some(*d),
        Ins::Call { dst, .. } => *dst,
        _ => None,
    }
}
/// Registers live on entry to each block after its phis have been evaluated (phi results included).
fn liveness(bs: &[Block], nr: usize) -> Vec<Rc<Vec<u32>>> {
    let words = (nr + 63) / 64;
    let n = bs.len();
    let mut live = vec![vec![0u64; words]; n];
    let set = |v: &mut Vec<u64>, r: u32| v[r as usize / 64] |= 1 << (r % 64);
    let clr = |v: &mut Vec<u64>, r: u32| v[r as usize / 64] &= !(1 << (r % 64));
    let mut ch = true;
    while ch {
        ch = false;
        for i in (0..n).rev() {
            let mut l = vec![0u64; words];
            for s in succs(&bs[i]) {
                let mut t = live[s as usize].clone();
                for (d, ins) in &bs[s as usize].phis { clr(&mut t, *d); let _ = ins; }
                for (_, ins) in &bs[s as usize].phis { for (p, o) in ins { if *p == i as u32 { if let Opd::R(r) = o { set(&mut t, *r); } } } }
                for k in 0..words { l[k] |= t[k]; }
            }
            for ins in bs[i].ins.iter().rev() {
                if let Some(d) = def(ins) { clr(&mut l, d); }
                uses(ins, &mut |r| set(&mut l, r));
            }
            if l != live[i] { live[i] = l; ch = true; }
        }
    }
    live.into_iter().map(|l| Rc::new((0..nr as u32).filter(|r| l[*r as usize / 64] >> (r % 64) & 1 == 1).collect())).collect()
}

struct FnCx<'a> { m: &'a Module, regs: HashMap<String, u32>, rty: Vec<Ty>, bnames: HashMap<String, u32> }

impl<'a> FnCx<'a> {
    fn reg(&self, n: &str) -> R<u32> { self.regs.get(n).copied().ok_or_else(|| format!("register %{}", n)) }
    fn val(&self, p: &mut Ps, ty: &Ty) -> R<Opd> {
        if let Some(Tok::L(n)) = p.peek() { p.i += 1; return Ok(Opd::R(self.reg(n)?)); }
        Ok(Opd::K(self.m.konst(p, ty)?))
    }
    fn tval(&self, p: &mut Ps) -> R<(Ty, Opd)> { let t = p.ty()?; p.attrs_to_value()?; let v = self.val(p, &t)?; Ok((t, v)) }
    fn label(&self, p: &mut Ps) -> R<u32> {
        if !p.eatw("label") { return Err("label".into()); }
        match p.next()? { Tok::L(n) => self.bnames.get(n).copied().ok_or_else(|| format!("block {}", n)), x => Err(format!("label {:?}", x)) }
    }
    fn lanes1(t: &Ty) -> Ty { match t { Ty::Vec(n, _) => Ty::Vec(*n, Rc::new(Ty::I(1))), _ => Ty::I(1) } }

    fn ins(&mut self, t: &[Tok], b: &mut Block) -> R<()> {
        let mut p = Ps { t, i: 0 };
        let mut dst = None;
        if t.len() > 1 && t[1] == Tok::P('=') { if let Tok::L(n) = &t[0] { dst = Some(self.reg(n)?); p.i = 2; } }
        let mut op = match p.next()? { Tok::W(w) => w.clone(), x => return Err(format!("opcode {:?}", x)) };
        while matches!(op.as_str(), "tail" | "musttail" | "notail") { op = match p.next()? { Tok::W(w) => w.clone(), _ => return Err("opcode".into()) }; }
        let d = || dst.ok_or_else(|| "no result".to_string());
        let skip = |p: &mut Ps, ws: &[&str]| { while let Some(Tok::W(w)) = p.peek() { if ws.contains(&w.as_str()) { p.i += 1; } else { break; } } };
        match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                skip(&mut p, &["nuw", "nsw", "exact", "disjoint"]);
                let ty = p.ty()?; let x = self.val(&mut p, &ty)?; p.expp(',')?; let y = self.val(&mut p, &ty)?;
                let o = match op.as_str() { "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "urem" => BinOp::URem, "sdiv" => BinOp::SDiv, "srem" => BinOp::SRem, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr, "and" => BinOp::And, "or" => BinOp::Or, _ => BinOp::Xor };
                self.rty[d()? as usize] = ty.clone();
                b.ins.push(Ins::Bin(d()?, o, ty, x, y));
            }
            "icmp" => {
                skip(&mut p, &["samesign"]);
                let pr = match p.next()? { Tok::W(w) => match w.as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, _ => return Err("pred".into()) }, _ => return Err("pred".into()) };
                let ty = p.ty()?; let x = self.val(&mut p, &ty)?; p.expp(',')?; let y = self.val(&mut p, &ty)?;
                self.rty[d()? as usize] = Self::lanes1(&ty);
                b.ins.push(Ins::Icmp(d()?, pr, ty, x, y));
            }
            "select" => {
                p.attrs_to_type()?;
                let ct = p.ty()?; let c = self.val(&mut p, &ct)?; p.expp(',')?;
                let (ty, x) = self.tval(&mut p)?; p.expp(',')?; let (_, y) = self.tval(&mut p)?;
                self.rty[d()? as usize] = ty.clone();
                b.ins.push(Ins::Select(d()?, ty, matches!(ct, Ty::Vec(..)), c, x, y));
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                skip(&mut p, &["nuw", "nsw", "nneg"]);
                let ty = p.ty()?; let x = self.val(&mut p, &ty)?; if !p.eatw("to") { return Err("to".into()); } let t2 = p.ty()?;
                let k = match op.as_str() { "trunc" => CastK::Trunc, "zext" => CastK::ZExt, "sext" => CastK::SExt, "bitcast" => CastK::Bit, _ => if t2.bits() < ty.bits() { CastK::Trunc } else { CastK::ZExt } };
                self.rty[d()? as usize] = t2.clone();
                b.ins.push(Ins::Cast(d()?, k, ty, t2, x));
            }
            "load" => {
                skip(&mut p, &["atomic", "volatile"]);
                let ty = p.ty()?; p.expp(',')?; let pt = p.ty()?; let a = self.val(&mut p, &pt)?;
                self.rty[d()? as usize] = ty.clone();
                b.ins.push(Ins::Load(d()?, ty, a));
            }
            "store" => {
                skip(&mut p, &["atomic", "volatile"]);
                let (ty, v) = self.tval(&mut p)?; p.expp(',')?; let (_, a) = self.tval(&mut p)?;
                b.ins.push(Ins::Store(ty, v, a));
            }
            "getelementptr" => {
                skip(&mut p, &["inbounds", "nuw", "nusw"]);
                while p.eatw("inrange") { p.skip_parens()?; }
                let mut cur = p.ty()?; p.expp(',')?;
                let (bt, base) = self.tval(&mut p)?;
                if bt != Ty::Ptr { return Err("vector gep".into()); }
                let mut off = 0i64; let mut dy = vec![]; let mut first = true;
                while p.eatp(',') {
                    let (it, iv) = self.tval(&mut p)?;
                    let sc;
                    if first { sc = cur.size(); first = false; }
                    else if let Ty::St(..) = cur {
                        let k = match &iv { Opd::K(v) => kv(v)? as u64, _ => return Err("gep".into()) };
                        let (o, t) = cur.field(k); off += o as i64; cur = t; continue;
                    } else { let (_, t) = cur.field(0); sc = t.size(); cur = t; }
                    match iv { Opd::K(v) => off = off.wrapping_add((crate::term::sx(kv(&v)?, it.bits()) as i64).wrapping_mul(sc as i64)), r => dy.push((r, it.bits(), sc)) }
                }
                self.rty[d()? as usize] = Ty::Ptr;
                b.ins.push(Ins::Gep(d()?, base, off, dy));
            }
            "alloca" => {
                let ty = p.ty()?;
                let mut n = 1; let mut al = ty.align();
                while p.eatp(',') { if p.eatw("align") { al = p.num()? as u64; } else { let it = p.ty()?; match self.val(&mut p, &it)? { Opd::K(v) => n = kv(&v)? as u64, _ => return Err("dynamic alloca".into()) } } }
                self.rty[d()? as usize] = Ty::Ptr;
                b.ins.push(Ins::Alloca(d()?, ty.size() * n, al));
            }
            "phi" => {
                skip(&mut p, &[]);
                p.attrs_to_type()?;
                let ty = p.ty()?;
                let mut v = vec![];
                loop {
                    p.expp('[')?; let x = self.val(&mut p, &ty)?; p.expp(',')?;
                    let bl = match p.next()? { Tok::L(n) => *self.bnames.get(n).ok_or_else(|| format!("block {}", n))?, x => return Err(format!("phi {:?}", x)) };
                    p.expp(']')?; v.push((bl, x));
                    if !p.eatp(',') { break; }
                }
                self.rty[d()? as usize] = ty;
                b.phis.push((d()?, v));
            }
            "call" | "invoke" => {
                p.attrs_to_type()?;
                let ret = p.ty()?;
                if p.isp('(') { p.skip_parens()?; }
                let callee = match p.next()? {
                    Tok::G(n) => match self.m.fnames.get(n) { Some(f) => Callee::Direct(*f), None => Callee::Ext(n.as_str().into()) },
                    Tok::L(n) => Callee::Ind(Opd::R(self.reg(n)?)),
                    Tok::W(w) if w == "asm" => { while !p.isp('(') { p.i += 1; } Callee::Asm }
                    x => return Err(format!("callee {:?}", x)),
                };
                p.expp('(')?;
                let mut args = vec![];
                while !p.eatp(')') {
                    let ty = p.ty()?;
                    if ty == Ty::Other { let mut dp = 0; loop { match p.peek() { Some(Tok::P('(')) => dp += 1, Some(Tok::P(')')) => { if dp == 0 { break; } dp -= 1 } Some(Tok::P(',')) if dp == 0 => break, None => return Err("args".into()), _ => {} } p.i += 1; } }
                    else { p.attrs_to_value()?; let v = self.val(&mut p, &ty)?; args.push((ty, v)); }
                    p.eatp(',');
                }
                let mut normal = None;
                if op == "invoke" {
                    while !p.isw("to") { p.next()?; }
                    p.i += 1;
                    normal = Some(self.label(&mut p)?);
                }
                if let Some(r) = dst { self.rty[r as usize] = ret.clone(); }
                b.ins.push(Ins::Call { dst, callee, args, ret, normal });
            }
            "extractvalue" => {
                let (ty, v) = self.tval(&mut p)?;
                let mut ix = vec![]; let mut cur = ty;
                while p.eatp(',') { let k = p.num()? as u64; cur = cur.field(k).1; ix.push(k); }
                self.rty[d()? as usize] = cur;
                b.ins.push(Ins::ExtractV(d()?, ix, v));
            }
            "insertvalue" => {
                let (ty, a) = self.tval(&mut p)?; p.expp(',')?; let (_, v) = self.tval(&mut p)?;
                let mut ix = vec![];
                while p.eatp(',') { ix.push(p.num()? as u64); }
                self.rty[d()? as usize] = ty.clone();
                b.ins.push(Ins::InsertV(d()?, ty, ix, a, v));
            }
            "extractelement" => {
                let (ty, a) = self.tval(&mut p)?; p.expp(',')?; let (_, i) = self.tval(&mut p)?;
                self.rty[d()? as usize] = ty.field(0).1;
                b.ins.push(Ins::ExtractE(d()?, ty, a, i));
            }
            "insertelement" => {
                let (ty, a) = self.tval(&mut p)?; p.expp(',')?; let (_, v) = self.tval(&mut p)?; p.expp(',')?; let (_, i) = self.tval(&mut p)?;
                self.rty[d()? as usize] = ty.clone();
                b.ins.push(Ins::InsertE(d()?, ty, a, v, i));
            }
            "shufflevector" => {
                let (ty, x) = self.tval(&mut p)?; p.expp(',')?; let (_, y) = self.tval(&mut p)?; p.expp(',')?;
                let mt = p.ty()?; let mk = self.m.konst(&mut p, &mt)?;
                let mask = match mk { V::A(v) => v.iter().map(|x| match x { V::C(c) => *c as i64, _ => -1 }).collect(), _ => return Err("mask".into()) };
                self.rty[d()? as usize] = Ty::Vec(mt.count(), Rc::new(ty.field(0).1));
                b.ins.push(Ins::Shuffle(d()?, ty.count(), x, y, mask));
            }
            "freeze" => { let (ty, v) = self.tval(&mut p)?; self.rty[d()? as usize] = ty; b.ins.push(Ins::Copy(d()?, v)); }
            "atomicrmw" => {
                skip(&mut p, &["volatile"]);
                let o = match p.next()? { Tok::W(w) => w.clone(), _ => return Err("rmw".into()) };
                let (_, a) = self.tval(&mut p)?; p.expp(',')?; let (ty, v) = self.tval(&mut p)?;
                self.rty[d()? as usize] = ty.clone();
                b.ins.push(Ins::Rmw(d()?, o.as_str().into(), ty, a, v));
            }
            "cmpxchg" => {
                skip(&mut p, &["weak", "volatile"]);
                let (_, a) = self.tval(&mut p)?; p.expp(',')?; let (ty, x) = self.tval(&mut p)?; p.expp(',')?; let (_, y) = self.tval(&mut p)?;
                self.rty[d()? as usize] = Ty::St(Rc::new(vec![ty.clone(), Ty::I(1)]), false);
                b.ins.push(Ins::CmpXchg(d()?, ty, a, x, y));
            }
            "fence" => {}
            "br" => {
                if p.isw("label") { let l = self.label(&mut p)?; b.ins.push(Ins::Br(l)); }
                else { let (_, c) = self.tval(&mut p)?; p.expp(',')?; let x = self.label(&mut p)?; p.expp(',')?; let y = self.label(&mut p)?; b.ins.push(Ins::CondBr(c, x, y)); }
            }
            "switch" => {
                let (ty, v) = self.tval(&mut p)?; p.expp(',')?; let dl = self.label(&mut p)?; p.expp('[')?;
                let mut cs = vec![];
                while !p.eatp(']') { let t = p.ty()?; let k = kv(&self.m.konst(&mut p, &t)?)?; p.expp(',')?; cs.push((k, self.label(&mut p)?)); }
                b.ins.push(Ins::Switch(v, ty.bits(), dl, cs));
            }
            "ret" => { if p.isw("void") { b.ins.push(Ins::Ret(None)); } else { let (_, v) = self.tval(&mut p)?; b.ins.push(Ins::Ret(Some(v))); } }
            "unreachable" => b.ins.push(Ins::Unreachable),
            "landingpad" | "resume" | "cleanupret" | "catchswitch" => b.ins.push(Ins::Dead(op.clone())),
            _ => return Err(format!("opcode {}", op)),
        }
        Ok(())
    }
}
