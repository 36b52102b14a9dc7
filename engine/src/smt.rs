//! SMT-LIB emission and solver processes.

use std::fmt::Write as _;
use std::io::Write;
use std::process::{Command, Stdio};
use std::time::Instant;
use crate::term::*;

#[derive(Debug, Clone)]
pub enum Res { Sat(Vec<u64>), Unsat, Unknown(String) }

#[derive(Default, Clone, Debug)]
pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub ms: u128, pub abs: u64, pub abs_unsat: u64, pub max_ms: u128, pub max_vars: u64, pub max_clauses: u64 }

/// Emits definitions for terms.
#[derive(Default)]
pub struct Emit { done: FxSet<T>, guards: FxSet<u32>, vars: FxSet<u32>, pub abs: bool, pub ndefs: usize }

fn lit(v: u128, w: u16) -> String { if w == 1 { if v == 1 { "true".into() } else { "false".into() } } else { format!("(_ bv{} {})", v, w) } }
fn b2v(s: &str) -> String { format!("(ite {} #b1 #b0)", s) }
fn vbits(hi: u64) -> u16 { (64 - hi.leading_zeros() as u16).max(1) }

impl Emit {
    fn r(&self, ts: &Terms, t: T) -> String { if let Some(v) = ts.cv(t) { lit(v, ts.w(t)) } else { format!("t{}", t) } }
    fn var(&mut self, ts: &Terms, i: u32, out: &mut String) {
        if !self.vars.insert(i) { return; }
        let v = &ts.vars[i as usize];
        let nb = vbits(v.hi);
        if nb == 1 { writeln!(out, "(declare-const v{} (_ BitVec 1))", i).unwrap(); return; }
        writeln!(out, "(declare-const v{} (_ BitVec {}))", i, nb).unwrap();
        writeln!(out, "(assert (bvule v{} {}))", i, lit(v.hi as u128, nb)).unwrap();
        if v.lo > 0 { writeln!(out, "(assert (bvuge v{} {}))", i, lit(v.lo as u128, nb)).unwrap(); }
    }
    /// A term registered as a guard root is emitted through its guards.
    fn as_tab(ts: &Terms, t: T) -> Option<u32> {
        let r = ts.root(t);
        if r != NOROOT && !matches!(ts.k(t), K::Tab(..)) && matches!(ts.roots[r as usize].kind, RootKind::Guards(_)) { Some(r) } else { None }
    }
    fn deps(&self, ts: &Terms, t: T, v: &mut Vec<T>) {
        if let Some(r) = Self::as_tab(ts, t) {
            if self.abs || self.guards.contains(&r) { return; }
            if let RootKind::Guards(g) = &ts.roots[r as usize].kind { v.extend(g.iter().copied()) }
            return;
        }
        match &ts.form(t) {
            K::Const(_) | K::Var(_) => {}
            K::Tab(r, _) => if !self.abs {
                if self.guards.contains(r) { return; }
                let root = &ts.roots[*r as usize];
                match &root.kind { RootKind::Var | RootKind::Interval | RootKind::Max(_) => v.push(root.term), RootKind::Guards(g) => v.extend(g.iter().copied()) }
            },
            K::Bin(_, a, b) | K::Cat(a, b) => { v.push(*a); v.push(*b) }
            K::Ite(a, b, c) => { v.push(*a); v.push(*b); v.push(*c) }
            K::Ext(_, _, a) | K::ZExt(a) | K::SExt(a) => v.push(*a),
        }
    }
    pub fn emit(&mut self, ts: &Terms, t: T, out: &mut String) {
        let mut st = vec![(t, false)];
        let mut dv = vec![];
        while let Some((x, ready)) = st.pop() {
            if ts.cv(x).is_some() || self.done.contains(&x) { continue; }
            if !ready {
                st.push((x, true));
                dv.clear();
                self.deps(ts, x, &mut dv);
                for d in &dv { if ts.cv(*d).is_none() && !self.done.contains(d) { st.push((*d, false)); } }
                continue;
            }
            self.done.insert(x);
            self.ndefs += 1;
            self.def(ts, x, out);
        }
    }
    fn guard(&mut self, ts: &Terms, r: u32, out: &mut String) {
        if !self.guards.insert(r) { return; }
        let root = &ts.roots[r as usize];
        let n = root.keys.len();
        for i in 0..n {
            let e = match &root.kind {
                RootKind::Guards(g) => self.r(ts, g[i]),
                _ => format!("(= {} {})", self.r(ts, root.term), lit(root.keys[i] as u128, ts.w(root.term))),
            };
            writeln!(out, "(define-fun g{}_{} () Bool {})", r, i, e).unwrap();
        }
    }
    fn or_of(r: u32, idx: &[usize], n: usize, inv: bool) -> String {
        let _ = n;
        let mut s = String::new();
        if inv { s.push_str("(not "); }
        match idx.len() { 0 => s.push_str("false"), 1 => write!(s, "g{}_{}", r, idx[0]).unwrap(), _ => { s.push_str("(or"); for i in idx { write!(s, " g{}_{}", r, i).unwrap(); } s.push(')'); } }
        if inv { s.push(')'); }
        s
    }
    fn def(&mut self, ts: &Terms, t: T, out: &mut String) {
        let w = ts.w(t);
        let sort = if w == 1 { "Bool".to_string() } else { format!("(_ BitVec {})", w) };
        let tabbed = match (Self::as_tab(ts, t), &ts.form(t)) { (Some(r), _) => Some((r, ts.roots[r as usize].keys.clone())), (_, K::Tab(r, a)) => Some((*r, ts.arrs[*a as usize].clone())), _ => None };
        let body = if let Some((r, arr)) = tabbed {
                if self.abs {
                    writeln!(out, "(declare-const t{} {})", t, sort).unwrap();
                    if w > 1 { let m = &ts.m[t as usize]; writeln!(out, "(assert (and (bvule {} t{}) (bvule t{} {})))", lit(m.lo, w), t, t, lit(m.hi, w)).unwrap(); }
                    return;
                }
                self.guard(ts, r, out);
                let n = arr.len();
                let mut bits = vec![];
                for b in (0..w).rev() {
                    let on: Vec<usize> = (0..n).filter(|i| arr[*i] >> b & 1 == 1).collect();
                    let e = if on.len() * 2 > n { let off: Vec<usize> = (0..n).filter(|i| arr[*i] >> b & 1 == 0).collect(); Self::or_of(r, &off, n, true) } else { Self::or_of(r, &on, n, false) };
                    bits.push(e);
                }
                if w == 1 { bits.pop().unwrap() } else { let v: Vec<String> = bits.iter().map(|e| if e == "false" { "#b0".to_string() } else { b2v(e) }).collect(); format!("(concat {})", v.join(" ")) }
        } else { match ts.k(t).clone() {
            K::Const(_) => return,
            K::Var(i) => {
                self.var(ts, i, out);
                let nb = vbits(ts.vars[i as usize].hi);
                if w == 1 { format!("(= v{} #b1)", i) } else if nb == w { format!("v{}", i) } else { format!("((_ zero_extend {}) v{})", w - nb, i) }
            }
            K::Tab(..) => unreachable!(),
            K::Bin(op, a, b) => {
                let (x, y) = (self.r(ts, a), self.r(ts, b));
                let wa = ts.w(a);
                if wa == 1 {
                    match op { Op::And => format!("(and {} {})", x, y), Op::Or => format!("(or {} {})", x, y), Op::Xor => format!("(xor {} {})", x, y), Op::Eq => format!("(= {} {})", x, y), _ => format!("(bad-bool-op {} {})", x, y) }
                } else {
                    let o = match op { Op::Add => "bvadd", Op::Sub => "bvsub", Op::Mul => "bvmul", Op::UDiv => "bvudiv", Op::URem => "bvurem", Op::SDiv => "bvsdiv", Op::SRem => "bvsrem", Op::Shl => "bvshl", Op::LShr => "bvlshr", Op::AShr => "bvashr", Op::And => "bvand", Op::Or => "bvor", Op::Xor => "bvxor", Op::Eq => "=", Op::Ult => "bvult", Op::Ule => "bvule", Op::Slt => "bvslt", Op::Sle => "bvsle" };
                    format!("({} {} {})", o, x, y)
                }
            }
            K::Ite(c, a, b) => format!("(ite {} {} {})", self.r(ts, c), self.r(ts, a), self.r(ts, b)),
            K::Ext(h, l, a) => { let e = format!("((_ extract {} {}) {})", h, l, self.r(ts, a)); if w == 1 { format!("(= {} #b1)", e) } else { e } }
            K::Cat(a, b) => {
                let f = |s: &Self, t: T| { let x = s.r(ts, t); if ts.w(t) == 1 { b2v(&x) } else { x } };
                format!("(concat {} {})", f(self, a), f(self, b))
            }
            K::ZExt(a) => { let x = self.r(ts, a); if ts.w(a) == 1 { format!("(ite {} {} {})", x, lit(1, w), lit(0, w)) } else { format!("((_ zero_extend {}) {})", w - ts.w(a), x) } }
            K::SExt(a) => { let x = self.r(ts, a); if ts.w(a) == 1 { format!("(ite {} {} {})", x, lit(mask(w), w), lit(0, w)) } else { format!("((_ sign_extend {}) {})", w - ts.w(a), x) } }
        } };
        writeln!(out, "(define-fun t{} () {} {})", t, sort, body).unwrap();
    }
}

/// Decides queries: terms are bit-blasted (only the cone of the query) and given to a SAT solver process;
/// optionally every query is also sent, as SMT-LIB text, to an SMT solver and the answers compared.
pub struct Smt {
    pub st: Stats,
    pub dump: Option<String>,
    pub trace: bool,
    pub sat: String,
    pub xcheck: Option<(String, u64)>,
    xspent: u128,
    pub xagree: u64,
    pub xunknown: u64,
    pub xdisagree: u64,
    pub lemmas: Vec<Vec<T>>,
    iso: FxMap<(u64, u64), Option<Vec<u64>>>,
    pub iso_hits: u64,
    pub lemma_hits: u64,
    cache: FxMap<Vec<T>, bool>,
}

impl Smt {
    pub fn new(sat: &str) -> Smt { Smt { st: Stats::default(), dump: None, trace: false, sat: sat.into(), xcheck: None, xspent: 0, xagree: 0, xunknown: 0, xdisagree: 0, lemmas: vec![], lemma_hits: 0, iso: Default::default(), iso_hits: 0, cache: Default::default() } }

    /// The query as a self-contained SMT-LIB script.
    pub fn script(&self, ts: &Terms, cs: &[T], abs: bool) -> String {
        let mut em = Emit::default();
        em.abs = abs;
        let mut out = String::from("(set-logic QF_BV)\n");
        for &c in cs { em.emit(ts, c, &mut out); let r = em.r(ts, c); writeln!(out, "(assert {})", r).unwrap(); }
        out.push_str("(check-sat)\n");
        out
    }
    fn cross(&mut self, ts: &Terms, cs: &[T], abs: bool, r: &Res) {
        let Some((cmd, secs)) = self.xcheck.clone() else { return };
        if self.xspent >= 200_000 { self.xunknown += 1; return }
        let began = Instant::now();
        let text = self.script(ts, cs, abs);
        let args: Vec<String> = if cmd.contains("cvc5") { vec!["--lang=smt2".into(), format!("--tlimit={}", secs * 1000), "-".into()] } else { vec!["-in".into(), "-smt2".into(), format!("-T:{}", secs)] };
        let Ok(mut c) = Command::new(&cmd).args(&args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() else { self.xunknown += 1; return };
        let mut i = c.stdin.take().unwrap();
        let th = std::thread::spawn(move || { let _ = i.write_all(text.as_bytes()); });
        let o = c.wait_with_output();
        let _ = th.join();
        let o = match o { Ok(o) => String::from_utf8_lossy(&o.stdout).into_owned(), Err(_) => String::new() };
        let a = o.lines().next().unwrap_or("").trim().to_string();
        self.xspent += began.elapsed().as_millis();
        match (a.as_str(), r) {
            ("sat", Res::Sat(_)) | ("unsat", Res::Unsat) => self.xagree += 1,
            ("sat", Res::Unsat) | ("unsat", Res::Sat(_)) => { self.xdisagree += 1; eprintln!("solver disagreement"); }
            _ => { if o.contains("(error") { eprintln!("{}", o); self.xdisagree += 1; } else { self.xunknown += 1 } }
        }
    }
    /// Is the conjunction contradictory even with the subterms `free` taking any values of their ranges?
    pub fn refuted_free(&mut self, ts: &Terms, cs: &[T], free: FxSet<T>, secs: u64) -> bool {
        let t0 = Instant::now();
        let mut cnf = crate::cnf::Cnf::new(false);
        cnf.free = free;
        for c in cs { let l = cnf.bits(ts, *c)[0]; cnf.clause(&[l]); }
        let nv = cnf.nv;
        let r = cnf.solve(ts, &self.sat, secs.max(1), None);
        let ms = t0.elapsed().as_millis();
        if self.trace { eprintln!("  query (cut) {} vars total {}ms {}", nv, ms, match &r { Res::Sat(_) => "sat", Res::Unsat => "unsat", Res::Unknown(_) => "unknown" }); }
        self.st.ms += ms;
        self.st.max_ms = self.st.max_ms.max(ms);
        self.st.queries += 1;
        self.st.abs += 1;
        match r { Res::Unsat => { self.st.unsat += 1; self.st.abs_unsat += 1; true } Res::Sat(_) => { self.st.sat += 1; false } _ => { self.st.unknown += 1; false } }
    }
    /// Satisfiability of the conjunction of `cs`. With `abs`, tables are unconstrained values of their range
    /// (an over-approximation: only `Unsat` is meaningful).
    pub fn check(&mut self, ts: &Terms, cs: &[T], secs: u64, abs: bool) -> Res {
        let mut key: Vec<T> = cs.iter().copied().filter(|c| ts.cv(*c) != Some(1)).collect();
        key.sort_unstable();
        key.dedup();
        if key.iter().any(|c| ts.cv(*c) == Some(0)) { return Res::Unsat; }
        key.push(T::MAX - abs as u32);
        if self.cache.get(&key).is_some() { return Res::Unsat; }
        let t0 = Instant::now();
        let mut cnf = crate::cnf::Cnf::new(abs);
        let mut ord = cs.to_vec();
        ord.sort_by(|a, b| ts.order(*a, *b));
        for &c in &ord { let l = cnf.bits(ts, c)[0]; cnf.clause(&[l]); }
        // the same formula up to the names of the inputs has the same answer
        let fp = cnf.fingerprint();
        if let Some(a) = self.iso.get(&fp) {
            self.iso_hits += 1;
            return match a {
                None => { key.pop(); if !abs { self.lemmas.push(key.clone()); } key.push(T::MAX - abs as u32); self.cache.insert(key, true); Res::Unsat }
                Some(vals) => { let mut m: Vec<u64> = ts.vars.iter().map(|v| v.lo).collect(); for (i, x) in cnf.order.iter().zip(vals) { m[*i as usize] = *x; } Res::Sat(m) }
            };
        }
        // conjunctions already shown contradictory, as clauses over what this query encodes
        if !abs {
            let asserted: FxSet<T> = cs.iter().copied().collect();
            for u in &self.lemmas {
                let rest: Vec<T> = u.iter().copied().filter(|x| !asserted.contains(x)).collect();
                if rest.is_empty() { return Res::Unsat; }
                if rest.len() > 3 { continue; }
                if let Some(ls) = rest.iter().map(|x| cnf.known(ts, *x)).collect::<Option<Vec<_>>>() {
                    self.lemma_hits += 1;
                    let c: Vec<i32> = ls.iter().map(|l| -l).collect();
                    cnf.clause(&c);
                }
            }
        }
        let order = cnf.order.clone();
        let enc = t0.elapsed().as_millis();
        let (nv, nc) = (cnf.nv, cnf.nc);
        self.st.max_clauses = self.st.max_clauses.max(nc as u64);
        self.st.max_vars = self.st.max_vars.max(nv as u64);
        let d = self.dump.as_ref().map(|d| format!("{}/q{}.cnf", d, self.st.queries));
        let r = cnf.solve(ts, &self.sat, secs.max(1), d);
        let ms = t0.elapsed().as_millis();
        if self.trace && ms > 200 { eprintln!("  query{} {} vars {} clauses, encode {}ms total {}ms {}", if abs { " (abs)" } else { "" }, nv, nc, enc, ms, match &r { Res::Sat(_) => "sat", Res::Unsat => "unsat", Res::Unknown(_) => "unknown" }); }
        match &r { Res::Unsat => { self.iso.insert(fp, None); } Res::Sat(m) => { self.iso.insert(fp, Some(order.iter().map(|i| m[*i as usize]).collect())); } _ => {} }
        self.st.ms += ms;
        self.st.max_ms = self.st.max_ms.max(ms);
        self.st.queries += 1;
        if abs { self.st.abs += 1; }
        match &r { Res::Sat(_) => self.st.sat += 1, Res::Unsat => { self.st.unsat += 1; if abs { self.st.abs_unsat += 1; } key.pop(); if !abs { self.lemmas.push(key.clone()); } key.push(T::MAX - abs as u32); self.cache.insert(key, true); } Res::Unknown(_) => self.st.unknown += 1 }
        self.cross(ts, cs, abs, &r);
        r
    }
}
