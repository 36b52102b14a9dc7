//! Symbolic executor over the parsed IR.

use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Instant;
use crate::ir::*;
use crate::smt::*;
use crate::term::*;

const HEAP_BASE: u64 = 0x10_0000_0000;
const HEAP_STRIDE: u64 = 0x10_0000; // one allocation per 1 MiB slot
const STACK_BASE: u64 = 0x7000_0000_0000;

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Option<Vec<(T, u8)>>, pub ro: bool }
const NOSYM: (T, u8) = (u32::MAX, 0);

#[derive(Clone)]
pub struct Mem { glob: Rc<Vec<(u64, Rc<Obj>)>>, heap: Rc<BTreeMap<u64, Rc<Obj>>>, stack: Rc<Vec<(u64, Rc<Obj>)>>, seq: u64, sp: u64, rec: Option<u64>, wr: Rc<std::collections::BTreeSet<u64>> }

#[derive(Clone)]
pub struct Frame { f: Rc<Func>, fid: u32, b: u32, ip: usize, regs: Vec<V>, ret_dst: Option<u32>, ret_normal: Option<u32>, sbase: usize, sp: u64 }

#[derive(Clone)]
pub struct Pre {
    /// 1: counting accesses to shared objects that get written, 2: the other thread runs at access `left`, 3: it is running, 4: it has run
    mode: u8,
    left: u64,
    count: u64,
    tls: Rc<Vec<(usize, Rc<Obj>)>>,
    snap: Option<Rc<(Rc<Vec<(u64, Rc<Obj>)>>, Rc<BTreeMap<u64, Rc<Obj>>>)>>,
}
const OTHER: u32 = u32::MAX;
const OTHER_FN: &str = "h_c27_other";

#[derive(Clone)]
pub struct State { frames: Vec<Rc<Frame>>, mem: Mem, pre: Pre, pc: Vec<T>, dom: Rc<FxMap<u32, Rc<Vec<bool>>>>, eqs: Rc<FxMap<T, u128>>, model: Option<Rc<Vec<u64>>>, at_entry: bool }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Stop { Block(usize, u32), Ret(usize) }

enum Ev { Go, Switch, End, Fork(Vec<(T, Option<u32>)>) }
pub enum Err { End, Fork(Vec<(T, Option<u32>)>), Fatal(String) }
type R<X> = Result<X, Err>;
fn fatal<X>(s: impl Into<String>) -> R<X> { Err(Err::Fatal(s.into())) }

enum Addr { One(u64), Many(u32, Vec<Option<u64>>) }

#[derive(Clone)]
pub struct Violation { pub kind: String, pub code: u64, pub msg: String, pub model: Vec<(u32, u64)>, pub at: String }

pub struct Cfg { pub params: Vec<u64>, pub fix: std::collections::HashMap<u32, u64>, pub hard_secs: u64, pub trace: bool, pub max_viol: usize }

#[derive(Default)]
pub struct Counts { pub instrs: u64, pub forks: u64, pub merges: u64, pub paths: u64, pub checks_const: u64, pub checks_solver: u64, pub checks_abs: u64, pub checks_split: u64, pub checks_cut: u64, pub swept: u64, pub panics_excluded: u64, pub addr_checks: u64, pub unasked: u64 }

pub struct Exec<'m> {
    pub m: &'m Module,
    pub ts: Terms,
    pub smt: Smt,
    pub cfg: Cfg,
    pub viol: Vec<Violation>,
    pub covers: BTreeMap<u64, u64>,
    pub logs: Vec<u64>,
    pub cnt: Counts,
    pub funcs_run: BTreeMap<u32, u64>,
    pub branches: FxMap<(u32, u32), u8>,
    pub stubs: BTreeMap<String, u64>,
    pub deadline: Instant,
    pub assumes: u64,
    pub rng_state: u64,
    pub shared_written: std::collections::BTreeSet<u64>,
    pub fresh_u: u32,
    models: Vec<Rc<Vec<u64>>>,
    /// the next fork is not merged where its branches meet
    keep: bool,
    fork_loc: FxMap<(u32, u32), u64>,
    pub incon: Vec<String>,
    enum_eqs: FxMap<T, (T, u128)>,
    enums: u32,
    light: FxMap<(u32, u32), bool>,
}

fn is_panic(n: &str) -> bool {
    (n.contains("9panicking") && !n.contains("panic_count") && !n.contains("9panicking9panicking")) || n.contains("18handle_alloc_error") || n.contains("12handle_error") || n.contains("begin_panic") || n.contains("13unwrap_failed") || n.contains("13expect_failed") || n.contains("rust_begin_unwind") || n.contains("17capacity_overflow") || n.contains("alloc_error_handler") || n.contains("slice_error_fail") || n.contains("slice_index_fail")
}

impl Obj {
    fn new(n: usize) -> Obj { Obj { data: vec![0; n], sym: None, ro: false } }
}

impl Mem {
    fn find(&self, a: u64) -> Option<(u64, &Rc<Obj>)> {
        if a >= STACK_BASE {
            let i = self.stack.partition_point(|x| x.0 <= a);
            if i == 0 { return None; }
            let (b, o) = &self.stack[i - 1];
            Some((*b, o))
        } else if a >= HEAP_BASE {
            self.heap.range(..=a).next_back().map(|(b, o)| (*b, o))
        } else {
            let i = self.glob.partition_point(|x| x.0 <= a);
            if i == 0 { return None; }
            let (b, o) = &self.glob[i - 1];
            Some((*b, o))
        }
    }
    fn get(&self, a: u64, n: u64) -> Option<(usize, &Rc<Obj>)> {
        let (b, o) = self.find(a)?;
        if a - b + n <= o.data.len() as u64 { Some(((a - b) as usize, o)) } else { None }
    }
    fn get_mut(&mut self, a: u64, n: u64) -> Option<(usize, &mut Obj)> {
        let b = { let (b, o) = self.find(a)?; if a - b + n > o.data.len() as u64 || o.ro { return None; } b };
        if let Some(top) = self.rec { if b < STACK_BASE && (b < HEAP_BASE || b < HEAP_BASE + top * HEAP_STRIDE) && !self.wr.contains(&b) { Rc::make_mut(&mut self.wr).insert(b); } }
        let o = if a >= STACK_BASE {
            let v = Rc::make_mut(&mut self.stack);
            let i = v.partition_point(|x| x.0 <= a) - 1;
            &mut v[i].1
        } else if a >= HEAP_BASE { Rc::make_mut(&mut self.heap).get_mut(&b).unwrap() } else {
            let v = Rc::make_mut(&mut self.glob);
            let i = v.partition_point(|x| x.0 <= a) - 1;
            &mut v[i].1
        };
        Some(((a - b) as usize, Rc::make_mut(o)))
    }
    fn alloc(&mut self, n: u64, _al: u64) -> u64 {
        let slots = (n + 64) / HEAP_STRIDE + 1;
        let a = HEAP_BASE + self.seq * HEAP_STRIDE;
        self.seq += slots;
        Rc::make_mut(&mut self.heap).insert(a, Rc::new(Obj::new(n as usize)));
        a
    }
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, solver: &str, cfg: Cfg, deadline: Instant) -> Self {
        Exec { m, ts: Terms::new(), smt: Smt::new(solver), cfg, viol: vec![], covers: BTreeMap::new(), logs: vec![], cnt: Counts::default(), funcs_run: BTreeMap::new(), branches: Default::default(), stubs: BTreeMap::new(), deadline, assumes: 0, shared_written: Default::default(), rng_state: 0x9E37_79B9_7F4A_7C15, fresh_u: 0, models: vec![], fork_loc: Default::default(), incon: vec![], enum_eqs: Default::default(), enums: 0, light: Default::default(), keep: false }
    }

    pub fn initial(&mut self, entry: &str) -> Result<State, String> {
        let fid = *self.m.fnames.get(entry).ok_or(format!("no function {}", entry))?;
        let mut glob = vec![];
        for g in &self.m.globals { let mut o = Obj::new(0); o.data = g.init.clone(); o.ro = g.constant; glob.push((g.addr, Rc::new(o))); }
        glob.sort_by_key(|x| x.0);
        let mem = Mem { glob: Rc::new(glob), heap: Rc::new(BTreeMap::new()), stack: Rc::new(vec![]), seq: 0, sp: STACK_BASE, rec: None, wr: Default::default() };
        let f = self.m.func(fid)?;
        let fr = Frame { regs: vec![V::U; f.rty.len()], f, fid, b: 0, ip: 0, ret_dst: None, ret_normal: None, sbase: 0, sp: STACK_BASE };
        *self.funcs_run.entry(fid).or_default() += 1;
        Ok(State { frames: vec![Rc::new(fr)], mem, pre: Pre { mode: 0, left: 0, count: 0, tls: Default::default(), snap: None }, pc: vec![], dom: Default::default(), eqs: Default::default(), model: Some(Rc::new(vec![])), at_entry: true })
    }

    // ---------- values ----------
    fn tv(&mut self, v: &V, w: u16) -> R<T> {
        match v { V::C(c) => Ok(self.ts.c(*c, w)), V::T(t) => Ok(*t), V::U => Ok(self.ts.c(0, w)), V::A(_) => fatal("aggregate used as scalar") }
    }
    fn vt(&self, t: T) -> V { match self.ts.cv(t) { Some(c) => V::C(c), None => V::T(t) } }

    fn get(fr: &Frame, o: &Opd) -> V { match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::K(v) => v.clone() } }

    fn to_bits(&mut self, v: &V, ty: &Ty) -> R<T> {
        match (v, ty) {
            (V::A(xs), Ty::Vec(_, et)) => {
                let mut acc: Option<T> = None;
                for x in xs.iter() { let t = self.tv(x, et.bits())?; acc = Some(match acc { None => t, Some(l) => self.ts.cat(t, l) }); }
                Ok(acc.unwrap())
            }
            (V::U, _) => Ok(self.ts.c(0, ty.bits())),
            _ => self.tv(v, ty.bits()),
        }
    }
    fn from_bits(&mut self, t: T, ty: &Ty) -> V {
        match ty {
            Ty::Vec(n, et) => { let w = et.bits(); let mut v = vec![]; for i in 0..*n as u16 { let e = self.ts.ext(i * w + w - 1, i * w, t); v.push(self.vt(e)); } V::A(Rc::new(v)) }
            _ => self.vt(t),
        }
    }

    // ---------- path condition ----------
    fn restrict(&mut self, s: &mut State, c: T) {
        let c = self.ts.norm(c);
        if let Some((t, v)) = self.enum_eqs.get(&c) { let (t, v) = (*t, *v); Rc::make_mut(&mut s.eqs).insert(t, v); }
        let r = self.ts.root(c);
        if r != NOROOT && self.ts.w(c) == 1 {
            let v = self.ts.vals(c);
            let d = Rc::make_mut(&mut s.dom);
            let e = match d.get(&r) { Some(o) => o.iter().zip(v.iter()).map(|(x, y)| *x && *y == 1).collect(), None => v.iter().map(|y| *y == 1).collect() };
            d.insert(r, Rc::new(e));
            return;
        }
        if let K::Bin(Op::And, a, b) = *self.ts.k(c) { if self.ts.w(c) == 1 { self.restrict(s, a); self.restrict(s, b); } }
        // x == const on a known root term
        if let K::Bin(Op::Eq, a, b) = *self.ts.k(c) { if let Some(v) = self.ts.cv(b) { Rc::make_mut(&mut s.eqs).insert(a, v); } }
    }
    fn add_pc(&mut self, s: &mut State, c: T) {
        let c = self.ts.norm(c);
        if c == self.ts.tru || s.pc.contains(&c) { return; }
        s.pc.push(c);
        self.restrict(s, c);
        if let Some(m) = &s.model { let m = m.clone(); if !self.holds(&m, c) { s.model = None; } }
    }
    fn holds(&self, m: &Rc<Vec<u64>>, c: T) -> bool { let mut cache = Default::default(); self.ts.eval(c, m, &mut cache) == 1 }

    /// Value of `t` in this state, as a constant if the state's known domains force one.
    fn simp(&mut self, s: &State, t: T) -> T {
        let t = self.ts.norm(t);
        if self.ts.cv(t).is_some() { return t; }
        let r = self.ts.root(t);
        if r != NOROOT {
            if let Some(d) = s.dom.get(&r) {
                let v = self.ts.vals(t);
                let mut it = d.iter().zip(v.iter()).filter(|x| *x.0).map(|x| *x.1);
                if let Some(x) = it.next() { if it.all(|y| y == x) { let w = self.ts.w(t); return self.ts.c(x as u128, w); } }
            }
            return t;
        }
        if !s.eqs.is_empty() {
            if let Some(v) = s.eqs.get(&t) { let w = self.ts.w(t); return self.ts.c(*v, w); }
            match *self.ts.k(t) {
                K::Bin(op, a, b) if self.ts.cv(b).is_some() => { let x = self.simp(s, a); if x != a { return self.ts.bin(op, x, b); } }
                K::Ext(h, l, a) => { let x = self.simp(s, a); if x != a { return self.ts.ext(h, l, x); } }
                K::ZExt(a) => { let x = self.simp(s, a); if x != a { let w = self.ts.w(t); return self.ts.zext(x, w); } }
                _ => {}
            }
        }
        if self.ts.w(t) == 1 {
            if s.pc.contains(&t) { return self.ts.tru; }
            let n = self.ts.not(t);
            if s.pc.contains(&n) { return self.ts.fls; }
            if let K::Bin(op, a, b) = *self.ts.k(t) {
                match op {
                    Op::And | Op::Or => {
                        let (x, y) = (self.simp(s, a), self.simp(s, b));
                        if x != a || y != b { return self.ts.bin(op, x, y); }
                    }
                    Op::Xor => { if b == self.ts.tru { let x = self.simp(s, a); if x != a { return self.ts.not(x); } } }
                    _ => {}
                }
            }
        }
        t
    }
    /// Subterms that `t` is a function of alone, nearest first.
    fn dominators(&self, t: T) -> Vec<T> {
        let mut front: std::collections::BTreeSet<T> = Default::default();
        let mut out = vec![];
        front.insert(t);
        let mut n = 0;
        while let Some(x) = front.pop_last() {
            n += 1;
            if n > 4000 { break; }
            if self.ts.cv(x).is_some() { continue; }
            let only = front.is_empty();
            if only && x != t { out.push(x); }
            if self.ts.root(x) != NOROOT || matches!(self.ts.k(x), K::Var(_) | K::Tab(..)) { if only { break; } if front.is_empty() { break; } return out; }
            let mut add = |y: T| { if self.ts.cv(y).is_none() { front.insert(y); } };
            match *self.ts.k(x) {
                K::Bin(_, a, b) | K::Cat(a, b) => { add(a); add(b) }
                K::Ite(c, a, b) => { add(c); add(a); add(b) }
                K::Ext(_, _, a) | K::ZExt(a) | K::SExt(a) => add(a),
                _ => {}
            }
        }
        out
    }
    /// Make the deepest small-domain subterm that determines `t` a root.
    fn root_chain(&mut self, t: T) -> T {
        let t = self.ts.norm(t);
        if self.ts.cv(t).is_some() || self.ts.root(t) != NOROOT { return t; }
        let ds = self.dominators(t);
        for x in ds.into_iter().rev() {
            if self.ts.w(x) == 1 || self.ts.cv(x).is_some() { continue; }
            if self.ts.root(x) != NOROOT { break; }
            if self.ts.register_root(x) { break; }
        }
        self.ts.norm(t)
    }
    fn sat(&mut self, pc: &[T], extra: T) -> Res { self.sat2(pc, extra, true).0 }
    /// With `full` off, a model of the relevant part of the path condition is enough; the flag says if the model satisfies all of it.
    fn sat2(&mut self, pc: &[T], extra: T, full: bool) -> (Res, bool) {
        let mut q: Vec<T> = pc.to_vec();
        q.push(extra);
        for m in self.models.iter().rev().take(24) {
            let mut cache = Default::default();
            let mut ok = true;
            for c in q.iter().rev() { if self.ts.eval(*c, m, &mut cache) != 1 { ok = false; break; } }
            if ok { return (Res::Sat((**m).clone()), true); }
        }
        // the part of the path condition about the same inputs first
        let mut sup = self.ts.support(extra);
        if sup != u128::MAX {
            // inputs 2k and 2k+1 belong together (rank and suit of a card)
            let ids: FxSet<u32> = self.ts.vars.iter().enumerate().filter(|(i, _)| *i < 127 && sup >> i & 1 == 1).map(|x| x.1.id / 2).collect();
            for (i, v) in self.ts.vars.iter().enumerate() { if i < 127 && ids.contains(&(v.id / 2)) { sup |= 1 << i; } }
        }
        let mut part = vec![];
        for c in pc { if self.ts.support(*c) & !sup == 0 { part.push(*c); } }
        part.push(extra);
        if part.len() < q.len() && sup != 0 {
            match self.ask(&part) {
                Res::Unsat => return (Res::Unsat, true),
                Res::Sat(m) => {
                    // inputs outside the part take the values of an earlier model
                    let mut tries = vec![m.clone()];
                    for k in self.models.iter().rev().take(8) { let mut x = (**k).clone(); x.resize(m.len(), 0); for i in 0..m.len() { if i >= 127 || sup >> i & 1 == 1 || x[i] < self.ts.vars[i].lo { x[i] = m[i]; } } tries.push(x); }
                    for x in tries {
                        let mut cache = Default::default();
                        if q.iter().all(|c| self.ts.eval(*c, &x, &mut cache) == 1) { self.models.push(Rc::new(x.clone())); return (Res::Sat(x), true); }
                    }
                    if !full { return (Res::Sat(m), false); }
                }
                Res::Unknown(_) => {}
            }
        }
        let t0 = Instant::now();
        if full { if let Some(m) = self.witness(pc, extra) { self.models.push(Rc::new(m.clone())); return (Res::Sat(m), true); } }
        let r = self.ask(&q);
        if self.cfg.trace && t0.elapsed().as_millis() > 4000 { eprintln!("slow query: {}", self.ts.show(extra, 7)); }
        if let Res::Sat(m) = &r {
            let mut cache = Default::default();
            for c in &q { if self.ts.eval(*c, m, &mut cache) != 1 { return (Res::Unknown(format!("model does not satisfy the encoding (t{})", c)), true); } }
            if self.models.len() > 200 { self.models.remove(0); }
            self.models.push(Rc::new(m.clone()));
        }
        (r, true)
    }
    fn ask(&mut self, q: &[T]) -> Res {
        let left = self.deadline.saturating_duration_since(Instant::now()).as_millis() as u64;
        self.smt.check(&self.ts, q, self.cfg.hard_secs.min(left / 1000).max(1), false)
    }
    /// Guides the solver to a counterexample: values of the few roots `n` depends on that make it true, then a query with these values fixed.
    fn witness(&mut self, pc: &[T], n: T) -> Option<Vec<u64>> {
        const MOST: u64 = 60_000_000;
        let mut order: Vec<T> = vec![];
        let mut seen: FxMap<T, usize> = Default::default();
        let mut roots: Vec<u32> = vec![];
        let mut st = vec![(n, false)];
        while let Some((x, done)) = st.pop() {
            if done { if !seen.contains_key(&x) { seen.insert(x, order.len()); order.push(x); } continue; }
            if seen.contains_key(&x) { continue; }
            if order.len() > 400 || st.len() > 4000 { return None; }
            st.push((x, true));
            if self.ts.cv(x).is_some() { continue; }
            let r = self.ts.root(x);
            if r != NOROOT { if !roots.contains(&r) { roots.push(r); } continue; }
            match *self.ts.k(x) {
                K::Bin(_, a, b) | K::Cat(a, b) => { st.push((a, false)); st.push((b, false)) }
                K::Ite(a, b, c) => { st.push((a, false)); st.push((b, false)); st.push((c, false)) }
                K::Ext(_, _, a) | K::ZExt(a) | K::SExt(a) => st.push((a, false)),
                _ => return None,
            }
        }
        let size: Vec<usize> = roots.iter().map(|r| self.ts.roots[*r as usize].keys.len()).collect();
        let mut all = 1u64;
        for x in &size { all = all.saturating_mul(*x as u64); }
        if roots.is_empty() || all > MOST || all * order.len() as u64 > MOST * 20 { return None; }
        // straight-line program over the positions in `order`
        enum P { C(u128), L(usize, Rc<Vec<u64>>), B(Op, u16, usize, usize), I(usize, usize, usize), X(u16, u16, usize), Cat(u16, usize, usize), Z(usize), S(u16, u16, usize) }
        let prog: Vec<P> = order.iter().map(|&x| {
            if let Some(v) = self.ts.cv(x) { return P::C(v); }
            let r = self.ts.root(x);
            if r != NOROOT { return P::L(roots.iter().position(|y| *y == r).unwrap(), self.ts.vals(x)); }
            match *self.ts.k(x) {
                K::Bin(o, a, b) => P::B(o, self.ts.w(a), seen[&a], seen[&b]), K::Cat(a, b) => P::Cat(self.ts.w(b), seen[&a], seen[&b]), K::Ite(a, b, c) => P::I(seen[&a], seen[&b], seen[&c]),
                K::Ext(h, l, a) => P::X(h, l, seen[&a]), K::ZExt(a) => P::Z(seen[&a]), K::SExt(a) => P::S(self.ts.w(a), self.ts.w(x), seen[&a]), _ => unreachable!(),
            }
        }).collect();
        let dead: Vec<Option<Rc<Vec<bool>>>> = roots.iter().map(|r| self.ts.roots[*r as usize].dead.as_ref().map(|d| d.0.clone())).collect();
        let mut v = vec![0u128; order.len()];
        let mut ix = vec![0usize; roots.len()];
        let mut found: Vec<Vec<usize>> = vec![];
        let mut hits = 0u64;
        'all: loop {
            if !(0..ix.len()).any(|i| dead[i].as_ref().map_or(false, |d| d[ix[i]])) {
                for (i, p) in prog.iter().enumerate() {
                    v[i] = match p {
                        P::C(c) => *c, P::L(r, t) => t[ix[*r]] as u128, P::B(o, w, a, b) => crate::term::fold(*o, *w, v[*a], v[*b]), P::I(c, a, b) => if v[*c] == 1 { v[*a] } else { v[*b] },
                        P::X(h, l, a) => (v[*a] >> l) & crate::term::mask(h - l + 1), P::Cat(w, a, b) => (v[*a] << w) | v[*b], P::Z(a) => v[*a], P::S(w, x, a) => crate::term::sx(v[*a], *w) as u128 & crate::term::mask(*x),
                    };
                }
                if v[v.len() - 1] == 1 { hits += 1; if found.len() < 4 { found.push(ix.clone()); } else if hits.is_power_of_two() { let k = (hits.trailing_zeros() % 4) as usize; found[k] = ix.clone(); } }
            }
            for i in 0..ix.len() { ix[i] += 1; if ix[i] < size[i] { continue 'all; } ix[i] = 0; }
            break;
        }
        for f in found {
            let mut q = pc.to_vec();
            for (r, i) in roots.iter().zip(&f) { let t = self.ts.btab(*r, |k| k == *i); q.push(t); }
            if let Res::Sat(m) = self.ask(&q) {
                let mut cache = Default::default();
                if q.iter().chain([&n]).all(|c| self.ts.eval(*c, &m, &mut cache) == 1) { return Some(m); }
            }
        }
        None
    }
    /// Is pc ∧ c satisfiable? Unknown counts as yes (sound for exploration).
    fn feasible(&mut self, s: &mut State, c: T) -> (bool, Option<Rc<Vec<u64>>>) {
        if let Some(v) = self.ts.cv(c) { return (v == 1, s.model.clone()); }
        if let Some(m) = s.model.clone() { if self.holds(&m, c) { return (true, Some(m)); } }
        if let Some(r) = self.one_input(s, c) { return r; }
        match self.sat2(&s.pc.clone(), c, false) {
            (Res::Sat(m), full) => (true, if full { Some(Rc::new(m)) } else { None }),
            (Res::Unsat, _) => (false, None),
            (Res::Unknown(e), _) => { self.incon.push(format!("branch feasibility: {}", e)); (true, None) }
        }
    }
    /// A condition on a single input of few values that no condition connects to other inputs.
    fn one_input(&mut self, s: &State, c: T) -> Option<(bool, Option<Rc<Vec<u64>>>)> {
        let sup = self.ts.support(c);
        if sup.count_ones() != 1 || sup >> 127 != 0 { return None; }
        let i = sup.trailing_zeros() as usize;
        let (lo, hi) = (self.ts.vars[i].lo, self.ts.vars[i].hi);
        if hi - lo > 300 { return None; }
        let mut on = vec![c];
        for p in &s.pc { let q = self.ts.support(*p); if q & sup != 0 { if q != sup { return None; } on.push(*p); } }
        let mut m: Vec<u64> = match &s.model { Some(m) => m.as_ref().clone(), None => return None };
        m.resize(self.ts.vars.len(), 0);
        for j in 0..m.len() { if m[j] < self.ts.vars[j].lo { m[j] = self.ts.vars[j].lo; } }
        for v in lo..=hi {
            m[i] = v;
            let mut cache = Default::default();
            if on.iter().all(|t| self.ts.eval(*t, &m, &mut cache) == 1) { return Some((true, Some(Rc::new(m)))); }
        }
        Some((false, None))
    }
    /// Is the code between a branch and the point where its targets meet again short, without loops and calls?
    /// Then both sides are executed without asking the solver which of them are possible.
    fn light_region(&mut self, f: &Rc<Func>, fid: u32, b: u32) -> bool {
        if let Some(x) = self.light.get(&(fid, b)) { return *x; }
        fn succ(i: &Ins) -> Option<Vec<u32>> {
            match i { Ins::Br(t) => Some(vec![*t]), Ins::CondBr(_, x, y) => Some(vec![*x, *y]), Ins::Switch(_, _, d, cs) => { let mut v: Vec<u32> = cs.iter().map(|c| c.1).collect(); v.push(*d); Some(v) } Ins::Ret(_) | Ins::Unreachable => Some(vec![]), _ => None }
        }
        fn go(m: &Module, f: &Func, x: u32, stop: Option<u32>, state: &mut BTreeMap<u32, u8>) -> bool {
            if Some(x) == stop { return true; }
            match state.get(&x) { Some(1) => return false, Some(_) => return true, None => {} }
            if state.len() >= 30 { return false; }
            state.insert(x, 1);
            for i in &f.blocks[x as usize].ins {
                if let Ins::Call { callee, .. } = i { match callee { Callee::Ext(n) if n.starts_with("llvm.") && !n.contains("mem") => {} _ => return false } }
                if let Ins::Dead(_) | Ins::Unsupported(_) = i { return false; }
            }
            let last = f.blocks[x as usize].ins.last().unwrap();
            let Some(v) = succ(last) else { return false };
            for y in v { if !go(m, f, y, stop, state) { return false; } }
            state.insert(x, 2);
            true
        }
        let mut state = BTreeMap::new();
        let mut ok = f.ipdom[b as usize].is_some();
        if ok { state.insert(b, 1); for y in succ(f.blocks[b as usize].ins.last().unwrap()).unwrap_or_default() { if !go(self.m, f, y, f.ipdom[b as usize], &mut state) { ok = false; break; } } }
        self.light.insert((fid, b), ok);
        ok
    }
    fn heavy(&mut self, t: T) -> bool { self.ts.support(t).count_ones() > 6 }
    /// The values a term can take, if that is plain from its structure and there are few.
    fn value_set(&mut self, s: &State, t: T, memo: &mut FxMap<T, Option<Rc<std::collections::BTreeSet<u64>>>>) -> Option<Rc<std::collections::BTreeSet<u64>>> {
        if let Some(r) = memo.get(&t) { return r.clone(); }
        let r = (|| {
            if let Some(v) = self.ts.cv(t) { return Some(std::collections::BTreeSet::from([v as u64])); }
            if self.ts.w(t) > 64 { return None; }
            let r = self.ts.root(t);
            if r != NOROOT {
                let v = self.ts.vals(t);
                let mut o = std::collections::BTreeSet::new();
                match s.dom.get(&r) { Some(d) => for (x, ok) in v.iter().zip(d.iter()) { if *ok { o.insert(*x); if o.len() > 64 { return None; } } }, None => for x in v.iter() { o.insert(*x); if o.len() > 64 { return None; } } }
                return Some(o);
            }
            match *self.ts.k(t) {
                K::Ite(_, a, b) => { let x = self.value_set(s, a, memo)?; let y = self.value_set(s, b, memo)?; let o: std::collections::BTreeSet<u64> = x.union(&y).copied().collect(); if o.len() > 64 { None } else { Some(o) } }
                K::ZExt(a) => Some((*self.value_set(s, a, memo)?).clone()),
                K::Ext(h, l, a) => { let m = mask(h - l + 1) as u64; Some(self.value_set(s, a, memo)?.iter().map(|v| v >> l & m).collect()) }
                K::Bin(op, a, b) if self.ts.cv(b).is_some() => { let c = self.ts.cv(b).unwrap(); let w = self.ts.w(a); Some(self.value_set(s, a, memo)?.iter().map(|v| fold(op, w, *v as u128, c) as u64).collect()) }
                _ => None,
            }
        })().map(Rc::new);
        memo.insert(t, r.clone());
        r
    }
    fn decide(&mut self, s: &mut State, c: T) -> R<(bool, bool, T, [Option<Rc<Vec<u64>>>; 2])> {
        let mut c = self.simp(s, c);
        if self.ts.cv(c).is_none() && self.ts.root(c) == NOROOT { let x = self.root_chain(c); c = self.simp(s, x); }
        if let Some(v) = self.ts.cv(c) { return Ok((v == 1, v == 0, c, [None, None])); }
        let n = self.ts.not(c);
        if self.heavy(c) {
            let fr = s.frames.last().unwrap();
            let (f, fid, b) = (fr.f.clone(), fr.fid, fr.b);
            if self.light_region(&f, fid, b) { self.cnt.unasked += 1; return Ok((true, true, c, [None, None])); }
        }
        let (ft, mt) = self.feasible(s, c);
        let (ff, mf) = if ft { self.feasible(s, n) } else { (true, None) };
        Ok((ft, ff, c, [mt, mf]))
    }

    // ---------- memory ----------
    fn read_obj(&mut self, o: &Rc<Obj>, off: usize, n: usize) -> V {
        let o = o.clone();
        if o.sym.is_none() || o.sym.as_ref().unwrap()[off..off + n].iter().all(|x| *x == NOSYM) {
            let mut v = 0u128;
            for i in (0..n).rev() { v = v << 8 | o.data[off + i] as u128; }
            return V::C(v);
        }
        let sy = o.sym.as_ref().unwrap();
        let mut acc: Option<T> = None;
        let mut i = 0;
        while i < n {
            let (t, k) = sy[off + i];
            let piece;
            if t == u32::MAX {
                let mut j = i;
                let mut v = 0u128;
                while j < n && sy[off + j] == NOSYM { v |= (o.data[off + j] as u128) << (8 * (j - i)); j += 1; }
                piece = self.ts.c(v, 8 * (j - i) as u16);
                i = j;
            } else {
                let mut j = i + 1;
                while j < n && sy[off + j].0 == t && sy[off + j].1 as usize == k as usize + (j - i) { j += 1; }
                let w = self.ts.w(t);
                let lo = 8 * k as u16;
                let hi = (8 * (k as u16 + (j - i) as u16) - 1).min(w - 1);
                let mut p = self.ts.ext(hi, lo, t);
                let want = 8 * (j - i) as u16;
                if self.ts.w(p) < want { p = self.ts.zext(p, want); }
                piece = p;
                i = j;
            }
            acc = Some(match acc { None => piece, Some(l) => self.ts.cat(piece, l) });
        }
        let t = acc.unwrap();
        self.vt(t)
    }
    fn write_obj(ts: &Terms, o: &mut Obj, off: usize, n: usize, v: &V) {
        match v {
            V::C(c) => { for i in 0..n { o.data[off + i] = (c >> (8 * i)) as u8; } if let Some(s) = &mut o.sym { for i in 0..n { s[off + i] = NOSYM; } } }
            V::T(t) => {
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![NOSYM; len]);
                let wb = (ts.w(*t) as usize + 7) / 8;
                for i in 0..n { if i < wb { s[off + i] = (*t, i as u8); } else { s[off + i] = NOSYM; o.data[off + i] = 0; } }
            }
            V::U => { for i in 0..n { o.data[off + i] = 0; } if let Some(s) = &mut o.sym { for i in 0..n { s[off + i] = NOSYM; } } }
            V::A(_) => unreachable!(),
        }
    }
    /// The locations an address can denote, as guarded alternatives.
    fn resolve(&mut self, s: &mut State, v: &V, n: u64) -> R<Vec<(T, Addr)>> {
        let t = match v { V::C(c) => return Ok(vec![(self.ts.tru, Addr::One(*c as u64))]), V::T(t) => *t, _ => return fatal("undefined address") };
        let mut out = vec![];
        let g = self.ts.tru;
        self.resolve_split(s, t, n, g, 0, &mut out)?;
        if out.is_empty() { return Err(Err::End); }
        Ok(out)
    }
    /// Condition of an if-then-else inside `t`, outermost first.
    fn ite_cond(&self, t: T) -> Option<T> {
        let mut seen: FxSet<T> = Default::default();
        let mut q = std::collections::VecDeque::from(vec![t]);
        while let Some(x) = q.pop_front() {
            if !seen.insert(x) || self.ts.root(x) != NOROOT { continue; }
            match *self.ts.k(x) {
                K::Ite(c, _, _) if self.ts.w(x) > 1 => return Some(c),
                K::Ite(_, a, b) | K::Bin(_, a, b) | K::Cat(a, b) => { q.push_back(a); q.push_back(b); }
                K::Ext(_, _, a) | K::ZExt(a) | K::SExt(a) => q.push_back(a),
                _ => {}
            }
        }
        None
    }
    fn resolve_split(&mut self, s: &mut State, t: T, n: u64, g: T, depth: u32, out: &mut Vec<(T, Addr)>) -> R<()> {
        let mut t = self.simp(s, t);
        loop {
            if self.ts.cv(t).is_some() || self.ts.root(t) != NOROOT { break; }
            let x = self.root_chain(t);
            t = self.simp(s, x);
            if self.ts.cv(t).is_some() || self.ts.root(t) != NOROOT { break; }
            if let Some(vs) = self.ts.vs(t) { if vs.len() <= 64 { break; } }
            let Some(c) = self.ite_cond(t) else { break };
            if depth >= 6 { break; }
            let sc = self.simp(s, c);
            if let Some(v) = self.ts.cv(sc) { t = self.ts.cofactor(t, c, v == 1); continue; }
            for v in [true, false] {
                let lit = if v { c } else { self.ts.not(c) };
                let mut x = s.clone();
                x.pc.push(lit);
                self.restrict(&mut x, lit);
                if let Some(m) = x.model.clone() { if !self.holds(&m, lit) { x.model = None; } }
                let tt = self.ts.cofactor(t, c, v);
                let gg = self.ts.and(g, lit);
                match self.resolve_split(&mut x, tt, n, gg, depth + 1, out) { Ok(()) | Err(Err::End) => {} Err(Err::Fork(_)) => return Err(Err::Fork(self.enum_fork(s, t)?)), Err(e) => return Err(e) }
            }
            return Ok(());
        }
        let a = self.resolve1(s, t, n)?;
        // an address that only this alternative has is judged under this alternative's condition
        if let Addr::One(x) = a { if s.mem.get(x, n).is_none() { return self.bad_mem(s, x, n, "access"); } }
        out.push((g, a));
        Ok(())
    }
    fn resolve1(&mut self, s: &mut State, t: T, n: u64) -> R<Addr> {
        let mut t = t;
        if let Some(c) = self.ts.cv(t) { return Ok(Addr::One(c as u64)); }
        if self.ts.root(t) == NOROOT {
            if self.ts.register_root(t) { let x = self.ts.norm(t); t = self.simp(s, x); if let Some(c) = self.ts.cv(t) { return Ok(Addr::One(c as u64)); } }
        }
        let r = self.ts.root(t);
        if r == NOROOT { return Err(Err::Fork(self.enum_fork(s, t)?)); }
        let vals = self.ts.vals(t);
        let dom = s.dom.get(&r).cloned();
        let mut lanes: Vec<Option<u64>> = vals.iter().enumerate().map(|(i, a)| if dom.as_ref().map_or(true, |d| d[i]) { Some(*a) } else { None }).collect();
        let mut bad = vec![false; lanes.len()];
        let mut anybad = false;
        let mut cache: FxMap<u64, bool> = Default::default();
        for (i, l) in lanes.iter().enumerate() { if let Some(a) = l { let ok = *cache.entry(*a).or_insert_with(|| s.mem.get(*a, n).is_some()); if !ok { bad[i] = true; anybad = true; } } }
        if anybad {
            self.cnt.addr_checks += 1;
            let g = self.ts.btab(r, |i| bad[i]);
            match self.sat(&s.pc.clone(), g) {
                Res::Unsat => { let ng = self.ts.not(g); self.restrict(s, ng); for i in 0..lanes.len() { if bad[i] { lanes[i] = None; } } }
                Res::Sat(m) => { self.report(s, "memory", 0, "access outside any live object", &m); return Err(Err::End); }
                Res::Unknown(e) => return fatal(format!("address check: {}", e)),
            }
        }
        let mut it = lanes.iter().flatten();
        let f = match it.next() { Some(f) => *f, None => return Err(Err::End) };
        if it.all(|x| *x == f) { return Ok(Addr::One(f)); }
        Ok(Addr::Many(r, lanes))
    }
    /// Fork on the value a term has in a model.
    fn enum_fork(&mut self, s: &mut State, t: T) -> R<Vec<(T, Option<u32>)>> {
        let m = match &s.model { Some(m) => m.clone(), None => match self.sat(&s.pc.clone(), self.ts.tru) { Res::Sat(m) => Rc::new(m), Res::Unsat => return Err(Err::End), Res::Unknown(e) => return fatal(e) } };
        let mut cache = Default::default();
        let v = self.ts.eval(t, &m, &mut cache);
        self.enums += 1;
        if self.enums > 400 { return fatal(format!("too many values to enumerate at {}", self.loc(s))); }
        let c = self.ts.eqc(t, v);
        let n = self.ts.not(c);
        self.enum_eqs.insert(c, (t, v));
        if self.cfg.trace { eprintln!("enum fork on {} = {:x} at {}", self.ts.show(t, 9), v, self.loc(s)); }
        let mut out = vec![(c, None)];
        s.model = Some(m);
        if self.feasible(s, n).0 { out.push((n, None)); }
        Ok(out)
    }
    /// A concrete value for `v`, forking the state over its possible values if there are several.
    fn concrete(&mut self, s: &mut State, v: &V) -> R<u128> {
        let t = match v { V::C(c) => return Ok(*c), V::U => return Ok(0), V::T(t) => *t, _ => return fatal("aggregate") };
        let t = self.simp(s, t);
        if let Some(c) = self.ts.cv(t) { return Ok(c); }
        let mut t = { let x = self.root_chain(t); self.simp(s, x) };
        if self.ts.root(t) == NOROOT && self.ts.register_root(t) { let x = self.ts.norm(t); t = self.simp(s, x); }
        if let Some(c) = self.ts.cv(t) { return Ok(c); }
        let r = self.ts.root(t);
        if r == NOROOT { return Err(Err::Fork(self.enum_fork(s, t)?)); }
        let vals = self.ts.vals(t);
        let dom = s.dom.get(&r).cloned();
        let mut by: BTreeMap<u64, Vec<usize>> = BTreeMap::new();
        for (i, x) in vals.iter().enumerate() { if dom.as_ref().map_or(true, |d| d[i]) { by.entry(*x).or_default().push(i); } }
        let mut alts = vec![];
        for (_, is) in by {
            let mut b = vec![0u64; vals.len()];
            for i in is { b[i] = 1; }
            let g = self.ts.tab(r, b, 1);
            if self.feasible(s, g).0 { alts.push((g, None)); }
            else { let ng = self.ts.not(g); self.restrict(s, ng); }
        }
        if alts.is_empty() { return Err(Err::End); }
        if alts.len() == 1 { // single feasible value: domains have been restricted accordingly
            let x = self.simp(s, t);
            if let Some(c) = self.ts.cv(x) { return Ok(c); }
        }
        Err(Err::Fork(alts))
    }

    fn load_bits(&mut self, s: &mut State, a: &V, n: usize) -> R<V> {
        let alts = self.resolve(s, a, n as u64)?;
        if n > 8 && alts.iter().any(|x| matches!(x.1, Addr::Many(..))) {
            let lo = self.load_bits(s, a, 8)?;
            let a2 = self.add_off(a, 8)?;
            let hi = self.load_bits(s, &a2, n - 8)?;
            let (l, h) = (self.tv(&lo, 64)?, self.tv(&hi, 8 * (n - 8) as u16)?);
            let t = self.ts.cat(h, l);
            return Ok(self.vt(t));
        }
        let w = 8 * n as u16;
        let mut acc: Option<V> = None;
        for (g, x) in alts.into_iter().rev() {
            let v = self.load_addr(s, &x, n)?;
            acc = Some(match acc { None => v, Some(b) => { let (x, y) = (self.tv(&v, w)?, self.tv(&b, w)?); let t = self.ts.ite(g, x, y); self.vt(t) } });
        }
        Ok(acc.unwrap())
    }
    fn load_addr(&mut self, s: &mut State, a: &Addr, n: usize) -> R<V> {
        match a {
            Addr::One(a) => match s.mem.get(*a, n as u64) {
                Some((off, o)) => { let o = o.clone(); Ok(self.read_obj(&o, off, n)) }
                None => self.bad_mem(s, *a, n as u64, "read"),
            },
            Addr::Many(r, lanes) => {
                let r = *r;
                let mut cache: FxMap<u64, V> = Default::default();
                let mut conc = vec![None; lanes.len()];
                let mut syms: Vec<(T, Vec<usize>)> = vec![];
                let mut fill = 0u64;
                for (i, l) in lanes.iter().enumerate() {
                    let Some(a) = l else { continue };
                    let v = match cache.get(a) { Some(v) => v.clone(), None => { let (off, o) = s.mem.get(*a, n as u64).unwrap(); let o = o.clone(); let v = self.read_obj(&o, off, n); cache.insert(*a, v.clone()); v } };
                    match v {
                        V::C(c) => { conc[i] = Some(c as u64); fill = c as u64; }
                        V::T(t) => { if let Some(e) = syms.iter_mut().find(|e| e.0 == t) { e.1.push(i); } else { syms.push((t, vec![i])); } }
                        _ => {}
                    }
                }
                let w = 8 * n as u16;
                let mut acc = if conc.iter().all(|c| c.is_none()) { None } else { let f = conc.iter().flatten().next().copied().unwrap_or(fill); Some(self.ts.tab(r, conc.iter().map(|c| c.unwrap_or(f)).collect(), w)) };
                for (t, is) in syms {
                    acc = Some(match acc { None => t, Some(b) => { let mut m = vec![0u64; lanes.len()]; for i in is { m[i] = 1; } let g = self.ts.tab(r, m, 1); self.ts.ite(g, t, b) } });
                }
                Ok(self.vt(acc.unwrap()))
            }
        }
    }
    fn bad_mem<X>(&mut self, s: &mut State, a: u64, n: u64, what: &str) -> R<X> {
        if self.cfg.trace { eprintln!("bad {} at {:#x}: pc {}", what, a, s.pc.iter().map(|p| self.ts.show(*p, 6)).collect::<Vec<_>>().join(" ; ")); }
        match self.sat(&s.pc.clone(), self.ts.tru) {
            Res::Sat(m) => { self.report(s, "memory", 0, &format!("invalid {} of {} bytes at {:#x}", what, n, a), &m); Err(Err::End) }
            Res::Unsat => Err(Err::End),
            Res::Unknown(e) => fatal(format!("invalid {} reached, feasibility unknown: {}", what, e)),
        }
    }
    fn load(&mut self, s: &mut State, a: &V, ty: &Ty) -> R<V> {
        if let Ty::Vec(n, et) = ty {
            if et.bits() % 8 == 0 {
                let sz = et.size() as usize;
                let mut v = vec![];
                for i in 0..*n { let ai = self.add_off(a, i as i64 * sz as i64)?; v.push(self.load_bits(s, &ai, sz)?); }
                return Ok(V::A(Rc::new(v)));
            }
        }
        if let Ty::Arr(..) | Ty::St(..) = ty {
            let mut v = vec![];
            for i in 0..ty.count() { let (o, t) = ty.field(i); let ai = self.add_off(a, o as i64)?; v.push(self.load(s, &ai, &t)?); }
            return Ok(V::A(Rc::new(v)));
        }
        let w = ty.bits();
        let n = ((w + 7) / 8) as usize;
        let v = self.load_bits(s, a, n)?;
        if w as usize == n * 8 { return Ok(v); }
        Ok(match v { V::C(c) => V::C(c & mask(w)), V::T(t) => { let e = self.ts.ext(w - 1, 0, t); self.vt(e) } x => x })
    }
    fn add_off(&mut self, a: &V, o: i64) -> R<V> {
        if o == 0 { return Ok(a.clone()); }
        Ok(match a { V::C(c) => V::C((*c as u64).wrapping_add(o as u64) as u128), _ => { let t = self.tv(a, 64)?; let c = self.ts.c(o as u64 as u128, 64); let x = self.ts.bin(Op::Add, t, c); self.vt(x) } })
    }
    fn store_bits(&mut self, s: &mut State, a: &V, n: usize, v: &V) -> R<()> {
        let alts = self.resolve(s, a, n as u64)?;
        let uncond = alts.len() == 1;
        for (g, x) in alts {
            match x {
                Addr::One(a) => {
                    if uncond { match s.mem.get_mut(a, n as u64) { Some((off, o)) => Self::write_obj(&self.ts, o, off, n, v), None => return self.bad_mem(s, a, n as u64, "write") } }
                    else { self.store_cond(s, g, a, n, v)?; }
                }
                Addr::Many(r, lanes) => {
                    let mut by: BTreeMap<u64, Vec<usize>> = BTreeMap::new();
                    for (i, l) in lanes.iter().enumerate() { if let Some(a) = l { by.entry(*a).or_default().push(i); } }
                    for (a, is) in by {
                        let mut m = vec![0u64; lanes.len()];
                        for i in is { m[i] = 1; }
                        let h = self.ts.tab(r, m, 1);
                        let gg = self.ts.and(g, h);
                        self.store_cond(s, gg, a, n, v)?;
                    }
                }
            }
        }
        Ok(())
    }
    fn store_cond(&mut self, s: &mut State, g: T, a: u64, n: usize, v: &V) -> R<()> {
        let w = 8 * n as u16;
        let nv = self.tv(v, w)?;
        let nv = if self.ts.w(nv) < w { self.ts.zext(nv, w) } else { nv };
        let (off, o) = match s.mem.get(a, n as u64) { Some(x) => x, None => return self.bad_mem(s, a, n as u64, "write") };
        let o = o.clone();
        let old = self.read_obj(&o, off, n);
        let old = self.tv(&old, w)?;
        let x = self.ts.ite(g, nv, old);
        let x = self.vt(x);
        match s.mem.get_mut(a, n as u64) { Some((off, o)) => { Self::write_obj(&self.ts, o, off, n, &x); Ok(()) } None => self.bad_mem(s, a, n as u64, "write") }
    }
    fn store(&mut self, s: &mut State, a: &V, ty: &Ty, v: &V) -> R<()> {
        match (v, ty) {
            (V::A(xs), Ty::Vec(_, et)) if et.bits() % 8 != 0 => { let _ = xs; let t = self.to_bits(v, ty)?; let v = self.vt(t); self.store_bits(s, a, ((ty.bits() + 7) / 8) as usize, &v) }
            (V::A(xs), _) => { for (i, x) in xs.iter().enumerate() { let (o, t) = ty.field(i as u64); let ai = self.add_off(a, o as i64)?; self.store(s, &ai, &t, x)?; } Ok(()) }
            (V::U, t) if t.is_agg() => Ok(()),
            _ => self.store_bits(s, a, ((ty.bits() + 7) / 8) as usize, v),
        }
    }
    fn copy_mem(&mut self, s: &mut State, d: &V, src: &V, n: usize) -> R<()> {
        if n == 0 { return Ok(()); }
        let da = self.resolve(s, d, n as u64)?;
        let sa = self.resolve(s, src, n as u64)?;
        if let ([(_, Addr::One(d))], [(_, Addr::One(sr))]) = (&da[..], &sa[..]) {
            let (off, o) = match s.mem.get(*sr, n as u64) { Some(x) => x, None => return self.bad_mem(s, *sr, n as u64, "read") };
            let o = o.clone();
            match s.mem.get_mut(*d, n as u64) {
                Some((doff, dobj)) => {
                    dobj.data[doff..doff + n].copy_from_slice(&o.data[off..off + n]);
                    match (&o.sym, &mut dobj.sym) {
                        (None, None) => {}
                        (None, Some(ds)) => ds[doff..doff + n].fill(NOSYM),
                        (Some(ss), _) => { let len = dobj.data.len(); let ds = dobj.sym.get_or_insert_with(|| vec![NOSYM; len]); ds[doff..doff + n].copy_from_slice(&ss[off..off + n]); }
                    }
                    return Ok(());
                }
                None => return self.bad_mem(s, *d, n as u64, "write"),
            }
        }
        // read everything first (overlap), then write
        let mut parts = vec![];
        let mut i = 0;
        while i < n { let k = if n - i >= 8 { 8 } else if n - i >= 4 { 4 } else if n - i >= 2 { 2 } else { 1 }; let ai = self.add_off(src, i as i64)?; parts.push((i, k, self.load_bits(s, &ai, k)?)); i += k; }
        for (i, k, v) in parts { let ai = self.add_off(d, i as i64)?; self.store_bits(s, &ai, k, &v)?; }
        Ok(())
    }

    // ---------- merging ----------
    fn merge_v(&mut self, c: T, a: &V, b: &V, ty: &Ty) -> R<V> {
        Ok(match (a, b) {
            (V::C(x), V::C(y)) if x == y => a.clone(),
            (V::T(x), V::T(y)) if x == y => a.clone(),
            (V::U, _) => b.clone(),
            (_, V::U) => a.clone(),
            (V::A(x), V::A(y)) => { if Rc::ptr_eq(x, y) { return Ok(a.clone()); } let mut v = vec![]; for i in 0..x.len() { v.push(self.merge_v(c, &x[i], &y[i], &ty.field(i as u64).1)?); } V::A(Rc::new(v)) }
            _ => { let w = ty.bits(); let (x, y) = (self.tv(a, w)?, self.tv(b, w)?); let t = self.ts.ite(c, x, y); self.vt(t) }
        })
    }
    fn merge_obj(&mut self, c: T, a: &Rc<Obj>, b: &Rc<Obj>) -> R<Rc<Obj>> {
        if Rc::ptr_eq(a, b) { return Ok(a.clone()); }
        let (big, small, ca) = if a.data.len() >= b.data.len() { (a, b, true) } else { (b, a, false) };
        let mut out: Option<Obj> = None;
        let n = small.data.len();
        let sy = |o: &Obj, i: usize| o.sym.as_ref().map_or(NOSYM, |s| s[i]);
        let mut i = 0;
        while i < n {
            let e = (i + 8).min(n);
            let differ = |k: usize| { let (x, y) = (sy(big, k), sy(small, k)); x != y || (x == NOSYM && big.data[k] != small.data[k]) };
            if !(i..e).any(differ) { i = e; continue; }
            // smallest aligned chunks that cover the difference without cutting a stored term
            let mut k = i;
            while k < e {
                let mut len = 1;
                loop {
                    let d = (k..(k + len).min(e)).any(differ);
                    if !d && len == 1 { break; }
                    // does the chunk cut a term on either side?
                    let cut = |o: &Obj| { let end = k + len; end < n && sy(o, end) != NOSYM && sy(o, end - 1).0 == sy(o, end).0 && sy(o, end - 1).1 + 1 == sy(o, end).1 };
                    if (cut(big) || cut(small)) && k % (len * 2) == 0 && k + len * 2 <= e && len < 8 { len *= 2; } else { break; }
                }
                if (k..(k + len).min(e)).any(differ) {
                    let x = self.read_obj(big, k, len);
                    let y = self.read_obj(small, k, len);
                    let (x, y) = (self.tv(&x, 8 * len as u16)?, self.tv(&y, 8 * len as u16)?);
                    let t = if ca { self.ts.ite(c, x, y) } else { self.ts.ite(c, y, x) };
                    let v = self.vt(t);
                    let o = out.get_or_insert_with(|| (**big).clone());
                    Self::write_obj(&self.ts, o, k, len, &v);
                }
                k += len;
            }
            i = e;
        }
        Ok(match out { Some(o) => Rc::new(o), None => big.clone() })
    }
    fn merge(&mut self, base: usize, a: State, b: State, c: T) -> R<State> {
        self.cnt.merges += 1;
        if a.frames.len() != b.frames.len() { return fatal("merge: frame depth"); }
        let mut s = a.clone();
        let top = a.frames.len();
        for i in 0..top {
            let (x, y) = (&a.frames[i], &b.frames[i]);
            if Rc::ptr_eq(x, y) { continue; }
            if x.b != y.b || x.ip != y.ip { return fatal(format!("merge: different position in {}", x.f.name)); }
            let mut regs = x.regs.clone();
            let f = x.f.clone();
            if i + 1 == top && x.ip == 0 {
                let mut live: Vec<u32> = f.livein[x.b as usize].to_vec();
                for (d, _) in &f.blocks[x.b as usize].phis { live.push(*d); }
                for r in live { let r = r as usize; regs[r] = self.merge_v(c, &x.regs[r], &y.regs[r], &f.rty[r])?; }
            } else {
                for r in 0..regs.len() {
                    if let (V::U, _) | (_, V::U) = (&x.regs[r], &y.regs[r]) { if let V::U = x.regs[r] { regs[r] = y.regs[r].clone(); } continue; }
                    if f.rty[r] == Ty::Other { continue; }
                    regs[r] = self.merge_v(c, &x.regs[r], &y.regs[r], &f.rty[r])?;
                }
            }
            Rc::make_mut(&mut s.frames[i]).regs = regs;
        }
        // memory
        if !Rc::ptr_eq(&a.mem.glob, &b.mem.glob) {
            let mut g = (*a.mem.glob).clone();
            for i in 0..g.len() { if !Rc::ptr_eq(&g[i].1, &b.mem.glob[i].1) { g[i].1 = self.merge_obj(c, &a.mem.glob[i].1, &b.mem.glob[i].1)?; } }
            s.mem.glob = Rc::new(g);
        }
        if !Rc::ptr_eq(&a.mem.stack, &b.mem.stack) {
            let (x, y) = (&a.mem.stack, &b.mem.stack);
            let mut g = vec![];
            let (mut i, mut j) = (0, 0);
            while i < x.len() || j < y.len() {
                if j >= y.len() || (i < x.len() && x[i].0 < y[j].0) { g.push(x[i].clone()); i += 1; }
                else if i >= x.len() || y[j].0 < x[i].0 { g.push(y[j].clone()); j += 1; }
                else { let o = self.merge_obj(c, &x[i].1, &y[j].1)?; g.push((x[i].0, o)); i += 1; j += 1; }
            }
            s.mem.stack = Rc::new(g);
        }
        if !Rc::ptr_eq(&a.mem.heap, &b.mem.heap) {
            let mut g = (*a.mem.heap).clone();
            for (k, y) in b.mem.heap.iter() {
                match g.get(k) { Some(x) => { let x = x.clone(); if !Rc::ptr_eq(&x, y) { let o = self.merge_obj(c, &x, y)?; g.insert(*k, o); } } None => { g.insert(*k, y.clone()); } }
            }
            s.mem.heap = Rc::new(g);
        }
        if !Rc::ptr_eq(&a.mem.wr, &b.mem.wr) { let mut w = (*a.mem.wr).clone(); w.extend(b.mem.wr.iter()); s.mem.wr = Rc::new(w); }
        if (a.pre.mode, a.pre.left) != (b.pre.mode, b.pre.left) { s.pre.mode = a.pre.mode.max(b.pre.mode); if s.pre.mode == 2 { s.pre.left = a.pre.left.max(b.pre.left); } }
        s.pre.count = a.pre.count.max(b.pre.count);
        s.mem.seq = a.mem.seq.max(b.mem.seq);
        s.mem.sp = a.mem.sp.max(b.mem.sp);
        // path condition
        let conj = |ts: &mut Terms, v: &[T]| { let mut t = ts.tru; for x in v { t = ts.and(t, *x); } t };
        let pa = conj(&mut self.ts, &a.pc[base..]);
        let pb = conj(&mut self.ts, &b.pc[base..]);
        let o = self.ts.or(pa, pb);
        s.pc.truncate(base);
        if o != self.ts.tru { s.pc.push(o); }
        // domains: union
        let mut d: FxMap<u32, Rc<Vec<bool>>> = Default::default();
        for (r, x) in a.dom.iter() { if let Some(y) = b.dom.get(r) { if Rc::ptr_eq(x, y) { d.insert(*r, x.clone()); } else { d.insert(*r, Rc::new(x.iter().zip(y.iter()).map(|(p, q)| *p || *q).collect())); } } }
        s.dom = Rc::new(d);
        if !Rc::ptr_eq(&a.eqs, &b.eqs) { s.eqs = Rc::new(a.eqs.iter().filter(|(k, v)| b.eqs.get(k) == Some(v)).map(|(k, v)| (*k, *v)).collect()); }
        s.model = a.model.or(b.model);
        s.at_entry = a.at_entry;
        Ok(s)
    }

    // ---------- reporting ----------
    pub fn loc(&self, s: &State) -> String {
        let mut out = vec![];
        for f in s.frames.iter().rev().take(6) { out.push(format!("{}:{}", f.f.name, f.f.blocks[f.b as usize].name)); }
        out.join(" < ")
    }
    fn report(&mut self, s: &State, kind: &str, code: u64, msg: &str, m: &[u64]) {
        let model = self.ts.vars.iter().enumerate().map(|(i, v)| (v.id, m.get(i).copied().unwrap_or(v.lo))).collect();
        let at = self.loc(s);
        if self.cfg.trace { eprintln!("violation {} {} {} at {}", kind, code, msg, at); }
        self.viol.push(Violation { kind: kind.into(), code, msg: msg.into(), model, at });
    }
    fn panic_reached(&mut self, s: &mut State, what: &str) -> R<()> {
        match self.sat(&s.pc.clone(), self.ts.tru) {
            Res::Sat(m) => { self.report(s, "panic", 0, what, &m); Err(Err::End) }
            Res::Unsat => { self.cnt.panics_excluded += 1; Err(Err::End) }
            Res::Unknown(e) => fatal(format!("panic path feasibility unknown: {}", e)),
        }
    }
    /// Prove pc -> b.
    fn prove(&mut self, s: &mut State, b: T) -> Res {
        let n = self.ts.not(b);
        if let Some(m) = s.model.clone() { if self.holds(&m, n) { return Res::Sat((*m).clone()); } }
        let mut q = s.pc.clone();
        q.push(n);
        for m in self.models.iter().rev().take(60) {
            let mut cache = Default::default();
            if q.iter().rev().all(|c| self.ts.eval(*c, m, &mut cache) == 1) { return Res::Sat((**m).clone()); }
        }
        // 1: tables abstracted to unconstrained values of their ranges
        if let Res::Unsat = self.smt.check(&self.ts, &q, 3, true) { self.cnt.checks_abs += 1; return Res::Unsat; }
        if self.prove_cut(s, n, &[], 0) { self.cnt.checks_cut += 1; return Res::Unsat; }
        // 2: case split on the conditions inside the formula, 3: the whole query
        self.prove_split(s, n, 0, &[])
    }
    /// Shows that `n` is contradictory whatever the values of its subterms over few inputs are, after
    /// identifying those of them that are equal under the path condition.
    fn prove_cut(&mut self, s: &State, n: T, lits: &[T], depth: u32) -> bool {
        const FEW: u32 = 10;
        if self.ts.support(n).count_ones() <= FEW { return false; }
        let mut atoms: Vec<T> = vec![];
        let mut conds: Vec<T> = vec![];
        let mut seen: FxSet<T> = Default::default();
        let mut st = vec![n];
        st.extend(lits.iter().copied());
        while let Some(x) = st.pop() {
            if self.ts.cv(x).is_some() || !seen.insert(x) { continue; }
            let few = self.ts.support(x).count_ones() <= FEW;
            let form = self.ts.form(x);
            if few || (self.ts.root(x) != NOROOT && !matches!(form, K::Ite(..) | K::Bin(..))) { atoms.push(x); continue; }
            match form {
                K::Bin(op, a, b) => { if self.ts.w(x) == 1 && self.ts.w(a) > 1 { let _ = op; conds.push(x); } st.push(a); st.push(b) }
                K::Cat(a, b) => { st.push(a); st.push(b) }
                K::Ite(a, b, c) => { st.push(a); st.push(b); st.push(c) }
                K::Ext(_, _, a) | K::ZExt(a) | K::SExt(a) => st.push(a),
                _ => {}
            }
        }
        atoms.sort_by(|a, b| self.ts.order(*a, *b));
        // candidates for equality: same inputs, same values in all models seen so far
        let ms: Vec<Rc<Vec<u64>>> = self.models.iter().cloned().collect();
        let mut caches: Vec<FxMap<T, u128>> = ms.iter().map(|_| Default::default()).collect();
        let mut classes: BTreeMap<(u16, u128, Vec<u128>), Vec<T>> = BTreeMap::new();
        for &x in &atoms {
            let sig: Vec<u128> = ms.iter().zip(caches.iter_mut()).map(|(m, c)| self.ts.eval(x, m, c)).collect();
            classes.entry((self.ts.w(x), self.ts.support(x), sig)).or_default().push(x);
        }
        let mut memo: FxMap<T, T> = Default::default();
        for ((w, _, sig), c) in classes {
            let mut reps: Vec<T> = vec![];
            for x in c {
                let mut rep = None;
                if w == 1 && !sig.is_empty() && sig.iter().all(|v| *v == 1) {
                    let nx = self.ts.not(x);
                    if matches!(self.sat(&s.pc.clone(), nx), Res::Unsat) { self.cnt.swept += 1; let t = self.ts.tru; memo.insert(x, t); continue; }
                }
                for &r in reps.iter().take(4) {
                    let e = self.ts.bin(Op::Eq, x, r);
                    let ne = self.ts.not(e);
                    if ne == self.ts.fls || matches!(self.sat(&s.pc.clone(), ne), Res::Unsat) { rep = Some(r); self.cnt.swept += 1; break; }
                }
                match rep { Some(r) => { memo.insert(x, r); } None => { reps.push(x); memo.insert(x, x); } }
            }
        }
        let free: FxSet<T> = memo.values().copied().filter(|x| self.ts.cv(*x).is_none()).collect();
        let m = self.ts.subst(n, &mut memo);
        if m == self.ts.fls { return true; }
        let mut q = vec![m];
        for l in lits { let x = self.ts.subst(*l, &mut memo); if x == self.ts.fls { return true; } q.push(x); }
        let left = self.deadline.saturating_duration_since(Instant::now()).as_secs();
        if self.smt.refuted_free(&self.ts, &q, free, 60.min(left)) { return true; }
        // by cases on the last comparison that selects between values
        if depth > 60 { return false; }
        let sel = self.selectors(n);
        let Some(c) = conds.iter().copied().filter(|c| sel.contains(c) && !lits.iter().any(|l| l == c)).max() else {
            if self.cfg.trace { eprintln!("cut stuck at {}", self.ts.show(m, 9)); for c in &conds { eprintln!("   cond {} {}", sel.contains(c), self.ts.show(*c, 4)); } for l in lits { eprintln!("   lit {}", self.ts.show(*l, 4)); } }
            return false
        };
        for v in [true, false] {
            let mut l = lits.to_vec();
            let lit = if v { c } else { self.ts.not(c) };
            l.push(lit);
            let m = self.ts.cofactor(n, c, v);
            if m == self.ts.fls { continue; }
            if self.ts.support(m).count_ones() <= FEW { 
                if matches!(self.sat(&s.pc.clone(), m), Res::Unsat) { continue; }
                let mut pc = s.pc.clone();
                pc.extend(l.iter().copied());
                if !matches!(self.sat(&pc, m), Res::Unsat) { if self.cfg.trace { eprintln!("cut stuck at small {}", self.ts.show(m, 6)); for l in &l { eprintln!("   lit {}", self.ts.show(*l, 4)); } } return false; }
                continue;
            }
            if !self.prove_cut(s, m, &l, depth + 1) { return false; }
        }
        true
    }
    /// Terms inside conditions of if-then-else.
    fn selectors(&self, n: T) -> FxSet<T> {
        let mut seen: FxSet<(T, bool)> = Default::default();
        let mut out: FxSet<T> = Default::default();
        let mut st = vec![(n, false)];
        while let Some((x, b)) = st.pop() {
            if self.ts.cv(x).is_some() || self.ts.root(x) != NOROOT || !seen.insert((x, b)) { continue; }
            if b { out.insert(x); }
            match *self.ts.k(x) {
                K::Bin(_, p, q) | K::Cat(p, q) => { st.push((p, b)); st.push((q, b)) }
                K::Ite(c, p, q) => { st.push((c, true)); st.push((p, b)); st.push((q, b)) }
                K::Ext(_, _, p) | K::ZExt(p) | K::SExt(p) => st.push((p, b)),
                _ => {}
            }
        }
        out
    }
    /// Shows that pc and `n` are contradictory, by cases on conditions occurring in `n`.
    fn prove_split(&mut self, s: &State, n: T, depth: u32, atoms: &[T]) -> Res {
        let mut own;
        let s = if depth == 0 { own = s.clone(); self.apply_lemmas(&mut own); &own } else { s };
        let mut memo = Default::default();
        let n = self.simp_deep(s, n, &mut memo);
        if n == self.ts.fls { return Res::Unsat; }
        let cand = if depth < 10 { self.split_cond(n) } else { None };
        let Some(c) = cand else { return self.sat(&s.pc.clone(), n) };
        self.cnt.checks_split += 1;
        for v in [true, false] {
            let lit = if v { c } else { self.ts.not(c) };
            let mut a = atoms.to_vec();
            a.push(lit);
            let mut x = s.clone();
            x.pc.push(lit);
            x.model = None;
            self.restrict(&mut x, lit);
            self.apply_lemmas(&mut x);
            let m = self.ts.cofactor(n, c, v);
            let mut memo = Default::default();
            let m = self.simp_deep(&x, m, &mut memo);
            if m == self.ts.fls { continue; }
            if a.len() > 1 { if let Res::Unsat = self.smt.check(&self.ts, &a, 5, false) { continue; } }
            match self.prove_split(&x, m, depth + 1, &a) { Res::Unsat => {} r => return r }
        }
        Res::Unsat
    }
    /// Conjunctions already refuted, all but one of whose members hold here, exclude the last one.
    fn apply_lemmas(&mut self, s: &mut State) {
        let known: FxSet<T> = s.pc.iter().copied().collect();
        let mut out = vec![];
        for u in &self.smt.lemmas {
            let mut rest = u.iter().filter(|x| !known.contains(x));
            if let (Some(x), None) = (rest.next(), rest.next()) { if self.ts.root(*x) != NOROOT { out.push(*x); } }
        }
        for x in out { let n = self.ts.not(x); self.restrict(s, n); }
    }
    /// Condition (or part of one) that decides most if-then-else terms of `n`.
    fn split_cond(&self, n: T) -> Option<T> {
        let mut seen: FxSet<T> = Default::default();
        let mut st = vec![n];
        let mut score: BTreeMap<T, usize> = BTreeMap::new();
        while let Some(x) = st.pop() {
            if !seen.insert(x) || self.ts.cv(x).is_some() || self.ts.root(x) != NOROOT { continue; }
            if seen.len() > 20000 { return None; }
            match *self.ts.k(x) {
                K::Bin(_, a, b) | K::Cat(a, b) => { st.push(a); st.push(b) }
                K::Ite(c, a, b) => {
                    st.push(a); st.push(b); st.push(c);
                    let mut parts: FxSet<T> = Default::default();
                    let mut q = vec![c];
                    while let Some(y) = q.pop() {
                        if self.ts.cv(y).is_some() || !parts.insert(y) || parts.len() > 40 { continue; }
                        if self.ts.root(y) != NOROOT { continue; }
                        if let K::Bin(Op::And | Op::Or | Op::Xor, a, b) = *self.ts.k(y) { if self.ts.w(a) == 1 { q.push(a); q.push(b); } }
                    }
                    for y in parts { if !matches!(self.ts.k(y), K::Bin(Op::Xor, _, b) if self.ts.cv(*b).is_some()) { *score.entry(y).or_default() += if y == c { 2 } else { 1 }; } }
                }
                K::Ext(_, _, a) | K::ZExt(a) | K::SExt(a) => st.push(a),
                _ => {}
            }
        }
        score.into_iter().max_by_key(|x| x.1).map(|x| x.0)
    }
    /// Rewrites the term with what the state knows about roots.
    fn simp_deep(&mut self, s: &State, t: T, memo: &mut FxMap<T, T>) -> T {
        if let Some(r) = memo.get(&t) { return *r; }
        let mut x = self.simp(s, t);
        let r = self.ts.root(x);
        if r != NOROOT && self.ts.cv(x).is_none() && self.ts.w(x) <= 64 {
            // values in excluded lanes are immaterial
            if let Some(d) = s.dom.get(&r).cloned() {
                if let Some(i) = d.iter().position(|b| *b) {
                    let v = self.ts.vals(x);
                    let nv: Vec<u64> = v.iter().zip(d.iter()).map(|(a, ok)| if *ok { *a } else { v[i] }).collect();
                    let w = self.ts.w(x);
                    x = self.ts.tab(r, nv, w);
                }
            }
        }
        if self.ts.cv(x).is_none() && self.ts.root(x) == NOROOT {
            let w = self.ts.w(x);
            x = match self.ts.k(x).clone() {
                K::Bin(op, a, b) => { let (p, q) = (self.simp_deep(s, a, memo), self.simp_deep(s, b, memo)); if p == a && q == b { x } else { self.ts.bin(op, p, q) } }
                K::Ite(c, a, b) => {
                    let z = self.simp_deep(s, c, memo);
                    match self.ts.cv(z) {
                        Some(v) => self.simp_deep(s, if v == 1 { a } else { b }, memo),
                        None => { let (p, q) = (self.simp_deep(s, a, memo), self.simp_deep(s, b, memo)); if p == a && q == b && z == c { x } else { self.ts.ite(z, p, q) } }
                    }
                }
                K::Ext(h, l, a) => { let p = self.simp_deep(s, a, memo); if p == a { x } else { self.ts.ext(h, l, p) } }
                K::Cat(a, b) => { let (p, q) = (self.simp_deep(s, a, memo), self.simp_deep(s, b, memo)); if p == a && q == b { x } else { self.ts.cat(p, q) } }
                K::ZExt(a) => { let p = self.simp_deep(s, a, memo); if p == a { x } else { self.ts.zext(p, w) } }
                K::SExt(a) => { let p = self.simp_deep(s, a, memo); if p == a { x } else { self.ts.sext(p, w) } }
                _ => x,
            };
            x = self.simp(s, x);
        }
        memo.insert(t, x);
        x
    }
    fn check(&mut self, s: &mut State, v: &V, code: u64) -> R<()> {
        let t = self.tv(v, 1)?;
        let t = self.simp(s, t);
        let t = { let x = self.root_chain(t); self.simp(s, x) };
        if t == self.ts.tru { self.cnt.checks_const += 1; return Ok(()); }
        let t0 = Instant::now();
        let r = if t == self.ts.fls { self.sat(&s.pc.clone(), self.ts.tru) } else { self.prove(s, t) };
        self.cnt.checks_solver += 1;
        if self.cfg.trace && t0.elapsed().as_millis() > 500 { eprintln!("slow check: {}\n   pc: {}", self.ts.show(t, 12), s.pc.iter().map(|p| self.ts.show(*p, 2)).collect::<Vec<_>>().join(" ; ")); }
        if self.cfg.trace { eprintln!("check {} {:?} {}ms", code, match &r { Res::Sat(_) => "SAT", Res::Unsat => "unsat", Res::Unknown(_) => "unknown" }, t0.elapsed().as_millis()); }
        match r {
            Res::Unsat => {
                if t == self.ts.fls { return Err(Err::End); }
                Ok(())
            }
            Res::Sat(m) => {
                self.report(s, "check", code, "assertion can fail", &m);
                if t == self.ts.fls { return Err(Err::End); }
                self.add_pc(s, t);
                if !self.feasible(s, self.ts.tru).0 { return Err(Err::End); }
                Ok(())
            }
            Res::Unknown(e) => fatal(format!("check {}: solver gave no answer ({})", code, e)),
        }
    }

    // ---------- control ----------
    fn jump(&mut self, s: &mut State, target: u32) -> R<()> {
        let fr = Rc::make_mut(s.frames.last_mut().unwrap());
        let from = fr.b;
        let f = fr.f.clone();
        let phis = &f.blocks[target as usize].phis;
        if !phis.is_empty() {
            let mut vals = Vec::with_capacity(phis.len());
            for (d, ins) in phis { let (_, o) = ins.iter().find(|x| x.0 == from).expect("phi"); vals.push((*d, Self::get(fr, o))); }
            for (d, v) in vals { fr.regs[d as usize] = v; }
        }
        fr.b = target;
        fr.ip = 0;
        s.at_entry = true;
        Ok(())
    }
    fn reached(s: &State, stop: Stop) -> bool {
        match stop { Stop::Block(d, b) => s.frames.len() == d && s.at_entry && s.frames[d - 1].b == b && s.frames[d - 1].ip == 0, Stop::Ret(d) => s.frames.len() < d }
    }

    pub fn run(&mut self, mut s: State, stop: Stop) -> R<Option<State>> {
        loop {
            if self.viol.len() >= self.cfg.max_viol { return Ok(None); }
            let r = self.exec(&mut s, stop);
            let alts = match r { Ok(Ev::Switch) => return Ok(Some(s)), Ok(Ev::End) | Err(Err::End) => { self.cnt.paths += 1; return Ok(None) } Ok(Ev::Fork(a)) | Err(Err::Fork(a)) => a, Ok(Ev::Go) => unreachable!(), Err(e) => return Err(e) };
            if Instant::now() > self.deadline { return fatal("time limit reached"); }
            let d = s.frames.len();
            let top = &s.frames[d - 1];
            let inner = if std::mem::take(&mut self.keep) { stop } else { match top.f.ipdom[top.b as usize] { Some(p) => Stop::Block(d, p), None => Stop::Ret(d) } };
            self.cnt.forks += 1;
            if self.cfg.trace { eprintln!("fork {} pc={} terms={} {}", alts.len(), s.pc.len(), self.ts.n.len(), self.loc(&s)); }
            if self.cfg.trace { *self.fork_loc.entry((top.fid, top.b)).or_default() += 1; }
            let base = s.pc.len();
            let mut acc: Option<State> = None;
            let n = alts.len();
            for (i, (c, tgt)) in alts.into_iter().enumerate() {
                let mut x = if i + 1 == n { let e = State { frames: vec![], mem: Mem { glob: Rc::new(vec![]), heap: Default::default(), stack: Rc::new(vec![]), seq: 0, sp: 0, rec: None, wr: Default::default() }, pre: Pre { mode: 0, left: 0, count: 0, tls: Default::default(), snap: None }, pc: vec![], dom: Default::default(), eqs: Default::default(), model: None, at_entry: false }; std::mem::replace(&mut s, e) } else { s.clone() };
                // a literal that is already known still opens a suffix entry, so branches stay distinguishable
                x.pc.push(c);
                self.restrict(&mut x, c);
                if let Some(m) = x.model.clone() { if !self.holds(&m, c) { x.model = self.one_input(&x, c).and_then(|r| r.1); } }
                if let Some(t) = tgt { self.jump(&mut x, t)?; }
                let y = if tgt.is_some() && Self::reached(&x, inner) { Some(x) } else { self.run(x, inner)? };
                if let Some(y) = y {
                    acc = Some(match acc { None => y, Some(a) => self.merge(base, y, a, c)? });
                }
            }
            match acc { None => return Ok(None), Some(m) => s = m }
            if Self::reached(&s, stop) { return Ok(Some(s)); }
        }
    }

    fn exec(&mut self, s: &mut State, stop: Stop) -> R<Ev> {
        s.at_entry = false;
        loop {
            let f = s.frames.last().unwrap().f.clone();
            let depth = s.frames.len();
            loop {
                let (b, ip) = { let fr = s.frames.last().unwrap(); (fr.b, fr.ip) };
                let ins = &f.blocks[b as usize].ins[ip];
                self.cnt.instrs += 1;
                if self.cnt.instrs & 0xfffff == 0 && Instant::now() > self.deadline { return fatal("time limit reached"); }
                let r = match self.step(s, &f, ins) { Err(Err::Fatal(m)) if !m.contains(" @ ") => return fatal(format!("{} @ {}", m, self.loc(s))), r => r? };
                match r {
                    Ev::Go => {
                        if s.frames.len() == depth { if !s.at_entry { Rc::make_mut(s.frames.last_mut().unwrap()).ip += 1; } else { if Self::reached(s, stop) { return Ok(Ev::Switch); } s.at_entry = false; } }
                        else { if Self::reached(s, stop) { return Ok(Ev::Switch); } if s.frames.is_empty() { return Ok(Ev::Switch); } s.at_entry = false; break; }
                    }
                    e => return Ok(e),
                }
            }
        }
    }

    fn set(s: &mut State, d: u32, v: V) { Rc::make_mut(s.frames.last_mut().unwrap()).regs[d as usize] = v; }

    fn binop(&mut self, op: BinOp, w: u16, a: &V, b: &V) -> R<V> {
        let o = match op { BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv, BinOp::URem => Op::URem, BinOp::SDiv => Op::SDiv, BinOp::SRem => Op::SRem, BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr, BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor };
        if let (V::C(x), V::C(y)) = (a, b) { return Ok(V::C(fold(o, w, *x, *y))); }
        let (x, y) = (self.tv(a, w)?, self.tv(b, w)?);
        let t = self.ts.bin(o, x, y);
        Ok(self.vt(t))
    }
    fn icmp(&mut self, p: Pred, w: u16, a: &V, b: &V) -> R<V> {
        let (op, sw, neg) = match p { Pred::Eq => (Op::Eq, false, false), Pred::Ne => (Op::Eq, false, true), Pred::Ult => (Op::Ult, false, false), Pred::Ule => (Op::Ule, false, false), Pred::Ugt => (Op::Ult, true, false), Pred::Uge => (Op::Ule, true, false), Pred::Slt => (Op::Slt, false, false), Pred::Sle => (Op::Sle, false, false), Pred::Sgt => (Op::Slt, true, false), Pred::Sge => (Op::Sle, true, false) };
        if let (V::C(x), V::C(y)) = (a, b) { let (x, y) = if sw { (*y, *x) } else { (*x, *y) }; return Ok(V::C(fold(op, w, x, y) ^ neg as u128)); }
        let (mut x, mut y) = (self.tv(a, w)?, self.tv(b, w)?);
        if sw { std::mem::swap(&mut x, &mut y); }
        let mut t = self.ts.bin(op, x, y);
        if neg { t = self.ts.not(t); }
        Ok(self.vt(t))
    }
    fn cast(&mut self, k: CastK, w1: u16, w2: u16, a: &V) -> R<V> {
        if let V::C(x) = a { return Ok(V::C(match k { CastK::SExt => sx(*x, w1) as u128 & mask(w2), _ => x & mask(w2) })); }
        let t = self.tv(a, w1)?;
        let r = match k { CastK::Trunc => self.ts.ext(w2 - 1, 0, t), CastK::ZExt => self.ts.zext(t, w2), CastK::SExt => self.ts.sext(t, w2), CastK::Bit => t };
        Ok(self.vt(r))
    }
    fn select(&mut self, c: T, a: &V, b: &V, ty: &Ty) -> R<V> { self.merge_v(c, a, b, ty) }

    /// Whether the address is in an object that other threads can see and that gets written.
    fn shared(&mut self, s: &mut State, a: &V) -> R<bool> {
        let hit = |m: &Mem, a: u64| a < STACK_BASE && m.find(a).map_or(false, |x| m.wr.contains(&x.0));
        if let V::C(a) = a { return Ok(hit(&s.mem, *a as u64)); }
        for (_, x) in self.resolve(s, a, 1)? {
            match x { Addr::One(a) => if hit(&s.mem, a) { return Ok(true) }, Addr::Many(_, l) => if l.iter().flatten().any(|a| hit(&s.mem, *a)) { return Ok(true) } }
        }
        Ok(false)
    }
    /// The other thread runs here, with thread-locals of its own.
    fn other(&mut self, s: &mut State) -> R<Ev> {
        let Some(fid) = self.m.fnames.get(OTHER_FN).copied() else { return fatal("no other thread") };
        let f = self.m.func(fid).map_err(Err::Fatal)?;
        let mut tls = vec![];
        let g = Rc::make_mut(&mut s.mem.glob);
        for (i, x) in g.iter_mut().enumerate() {
            if let Some(d) = self.m.globals.iter().find(|d| d.tls && d.addr == x.0) { let mut o = Obj::new(0); o.data = d.init.clone(); tls.push((i, std::mem::replace(&mut x.1, Rc::new(o)))); }
        }
        s.pre.tls = Rc::new(tls);
        s.pre.mode = 3;
        let fr = Frame { regs: vec![V::U; f.rty.len()], f, fid, b: 0, ip: 0, ret_dst: Some(OTHER), ret_normal: None, sbase: s.mem.stack.len(), sp: s.mem.sp };
        s.frames.push(Rc::new(fr));
        Ok(Ev::Go)
    }

    fn step(&mut self, s: &mut State, f: &Rc<Func>, ins: &Ins) -> R<Ev> {
        if (s.pre.mode == 1 || s.pre.mode == 2) && !s.mem.wr.is_empty() {
            let a = match ins { Ins::Load(_, _, a) | Ins::Store(_, _, a) | Ins::Rmw(_, _, _, a, _) | Ins::CmpXchg(_, _, a, _, _) => Some(Self::get(s.frames.last().unwrap(), a)), _ => None };
            if let Some(a) = a { if self.shared(s, &a)? {
                if s.pre.mode == 1 { s.pre.count += 1; }
                else if s.pre.left > 0 { s.pre.left -= 1; }
                else { return self.other(s); }
            } }
        }
        let fr = s.frames.last().unwrap();
        let lanes = |v: &V, i: usize| -> V { match v { V::A(x) => x[i].clone(), _ => V::U } };
        match ins {
            Ins::Bin(d, op, ty, a, b) => {
                let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                let v = if let Ty::Vec(n, et) = ty { let mut v = vec![]; for i in 0..*n as usize { v.push(self.binop(*op, et.bits(), &lanes(&x, i), &lanes(&y, i))?); } V::A(Rc::new(v)) } else { self.binop(*op, ty.bits(), &x, &y)? };
                Self::set(s, *d, v);
            }
            Ins::Icmp(d, p, ty, a, b) => {
                let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                let v = if let Ty::Vec(n, et) = ty { let mut v = vec![]; for i in 0..*n as usize { v.push(self.icmp(*p, et.bits(), &lanes(&x, i), &lanes(&y, i))?); } V::A(Rc::new(v)) } else { self.icmp(*p, ty.bits(), &x, &y)? };
                Self::set(s, *d, v);
            }
            Ins::Select(d, ty, vc, c, a, b) => {
                let (c, x, y) = (Self::get(fr, c), Self::get(fr, a), Self::get(fr, b));
                let v = if *vc { let Ty::Vec(n, et) = ty else { return fatal("select") }; let mut v = vec![]; for i in 0..*n as usize { let ci = self.tv(&lanes(&c, i), 1)?; v.push(self.sel1(ci, &lanes(&x, i), &lanes(&y, i), et)?); } V::A(Rc::new(v)) }
                    else { match c { V::C(k) => if k == 1 { x } else { y }, V::T(t) => { let t = self.simp(s, t); self.sel1(t, &x, &y, ty)? } _ => return fatal("select on undefined") } };
                Self::set(s, *d, v);
            }
            Ins::Cast(d, k, t1, t2, a) => {
                let x = Self::get(fr, a);
                let v = match (k, t1, t2) {
                    (CastK::Bit, _, _) if t1.is_agg() || t2.is_agg() => { let b = self.to_bits(&x, t1)?; self.from_bits(b, t2) }
                    (_, Ty::Vec(n, e1), Ty::Vec(_, e2)) => { let mut v = vec![]; for i in 0..*n as usize { v.push(self.cast(*k, e1.bits(), e2.bits(), &lanes(&x, i))?); } V::A(Rc::new(v)) }
                    _ => self.cast(*k, t1.bits(), t2.bits(), &x)?,
                };
                Self::set(s, *d, v);
            }
            Ins::Load(d, ty, a) => { let a = Self::get(fr, a); let v = self.load(s, &a, ty)?; Self::set(s, *d, v); }
            Ins::Store(ty, v, a) => { let (v, a) = (Self::get(fr, v), Self::get(fr, a)); self.store(s, &a, ty, &v)?; }
            Ins::Gep(d, base, off, dy) => {
                let b = Self::get(fr, base);
                let mut ds = vec![];
                for (o, w, sc) in dy { ds.push((Self::get(fr, o), *w, *sc)); }
                let mut acc = self.add_off(&b, *off)?;
                for (v, w, sc) in ds {
                    match (&acc, &v) {
                        (V::C(p), V::C(i)) => acc = V::C((*p as u64).wrapping_add((sx(*i, w) as i64).wrapping_mul(sc as i64) as u64) as u128),
                        _ => {
                            let i = self.tv(&v, w)?;
                            let i = if w < 64 { self.ts.sext(i, 64) } else { i };
                            let c = self.ts.c(sc as u128, 64);
                            let i = self.ts.bin(Op::Mul, i, c);
                            let p = self.tv(&acc, 64)?;
                            let t = self.ts.bin(Op::Add, p, i);
                            acc = self.vt(t);
                        }
                    }
                }
                Self::set(s, *d, acc);
            }
            Ins::Alloca(d, n, al) => {
                let al = (*al).max(16);
                let a = (s.mem.sp + al - 1) / al * al;
                s.mem.sp = a + n + 16;
                Rc::make_mut(&mut s.mem.stack).push((a, Rc::new(Obj::new(*n as usize))));
                Self::set(s, *d, V::C(a as u128));
            }
            Ins::ExtractV(d, ix, a) => { let mut v = Self::get(fr, a); for i in ix { v = match v { V::A(x) => x[*i as usize].clone(), V::U => V::U, _ => return fatal("extractvalue") }; } Self::set(s, *d, v); }
            Ins::InsertV(d, ty, ix, a, x) => {
                let (a, x) = (Self::get(fr, a), Self::get(fr, x));
                fn ins(a: V, ty: &Ty, ix: &[u64], x: V) -> V { if ix.is_empty() { return x; } let mut v = match a { V::A(v) => (*v).clone(), _ => vec![V::U; ty.count() as usize] }; let i = ix[0] as usize; let t = ty.field(ix[0]).1; v[i] = ins(v[i].clone(), &t, &ix[1..], x); V::A(Rc::new(v)) }
                Self::set(s, *d, ins(a, ty, ix, x));
            }
            Ins::ExtractE(d, _, a, i) => { let (a, i) = (Self::get(fr, a), Self::get(fr, i)); let k = self.concrete(s, &i)? as usize; Self::set(s, *d, lanes(&a, k)); }
            Ins::InsertE(d, ty, a, x, i) => {
                let (a, x, i) = (Self::get(fr, a), Self::get(fr, x), Self::get(fr, i));
                let k = self.concrete(s, &i)? as usize;
                let mut v = match a { V::A(v) => (*v).clone(), _ => vec![V::U; ty.count() as usize] };
                v[k] = x;
                Self::set(s, *d, V::A(Rc::new(v)));
            }
            Ins::Shuffle(d, n, a, b, m) => {
                let (a, b) = (Self::get(fr, a), Self::get(fr, b));
                let v = m.iter().map(|&k| if k < 0 { V::U } else if (k as u64) < *n { lanes(&a, k as usize) } else { lanes(&b, (k as u64 - n) as usize) }).collect();
                Self::set(s, *d, V::A(Rc::new(v)));
            }
            Ins::Copy(d, a) => { let v = Self::get(fr, a); let v = if let V::U = v { V::C(0) } else { v }; Self::set(s, *d, v); }
            Ins::Rmw(d, op, ty, a, x) => {
                let (a, x) = (Self::get(fr, a), Self::get(fr, x));
                let old = self.load(s, &a, ty)?;
                let w = ty.bits();
                let new = match &**op {
                    "add" => self.binop(BinOp::Add, w, &old, &x)?, "sub" => self.binop(BinOp::Sub, w, &old, &x)?, "and" => self.binop(BinOp::And, w, &old, &x)?, "or" => self.binop(BinOp::Or, w, &old, &x)?, "xor" => self.binop(BinOp::Xor, w, &old, &x)?, "xchg" => x,
                    o => return fatal(format!("atomicrmw {}", o)),
                };
                self.store(s, &a, ty, &new)?;
                Self::set(s, *d, old);
            }
            Ins::CmpXchg(d, ty, a, x, y) => {
                let (a, x, y) = (Self::get(fr, a), Self::get(fr, x), Self::get(fr, y));
                let old = self.load(s, &a, ty)?;
                let eq = self.icmp(Pred::Eq, ty.bits(), &old, &x)?;
                let c = self.tv(&eq, 1)?;
                let new = self.sel1(c, &y, &old, ty)?;
                self.store(s, &a, ty, &new)?;
                Self::set(s, *d, V::A(Rc::new(vec![old, eq])));
            }
            Ins::Br(t) => self.jump(s, *t)?,
            Ins::CondBr(c, x, y) => {
                let v = Self::get(fr, c);
                let (fid, bb) = (fr.fid, fr.b);
                match v {
                    V::C(k) => { self.jump(s, if k == 1 { *x } else { *y })?; }
                    V::T(t) => {
                        if x == y { self.jump(s, *x)?; return Ok(Ev::Go); }
                        let (ct, cf, t, ms) = self.decide(s, t)?;
                        let _ = (fid, bb);
                        match (ct, cf) {
                            (true, true) => { let n = self.ts.not(t); let _ = ms; return Ok(Ev::Fork(vec![(t, Some(*x)), (n, Some(*y))])); }
                            (true, false) => { self.restrict(s, t); self.jump(s, *x)?; }
                            (false, true) => { let n = self.ts.not(t); self.restrict(s, n); self.jump(s, *y)?; }
                            (false, false) => return Ok(Ev::End),
                        }
                    }
                    _ => return fatal(format!("branch on undefined value in {}", f.name)),
                }
            }
            Ins::Switch(v, w, d, cs) => {
                let v = Self::get(fr, v);
                let t = match v { V::C(k) => { let tg = cs.iter().find(|c| c.0 == k).map_or(*d, |c| c.1); self.jump(s, tg)?; return Ok(Ev::Go); } V::T(t) => t, _ => return fatal("switch on undefined") };
                let mut t = self.simp(s, t);
                if self.ts.cv(t).is_none() { let x = self.root_chain(t); t = self.simp(s, x); }
                if let Some(k) = self.ts.cv(t) { let tg = cs.iter().find(|c| c.0 == k).map_or(*d, |c| c.1); self.jump(s, tg)?; return Ok(Ev::Go); }
                // group by target
                let mut groups: Vec<(u32, T)> = vec![];
                let mut rest = self.ts.tru;
                let mut memo = Default::default();
                let vset = self.value_set(s, t, &mut memo);
                let light = self.heavy(t) && self.light_region(&f, s.frames.last().unwrap().fid, s.frames.last().unwrap().b);
                for (k, tg) in cs {
                    if let Some(v) = &vset { if !v.contains(&(*k as u64)) { continue; } }
                    let e = self.ts.eqc(t, *k);
                    let ne = self.ts.not(e);
                    rest = self.ts.and(rest, ne);
                    if let Some(g) = groups.iter_mut().find(|g| g.0 == *tg) { g.1 = self.ts.or(g.1, e); } else { groups.push((*tg, e)); }
                }
                if vset.as_ref().is_some_and(|v| v.iter().all(|x| cs.iter().any(|c| c.0 as u64 == *x))) {
                    // the default is never taken, so one of the cases needs no test
                    rest = self.ts.fls;
                }
                if rest == self.ts.fls {} else if let Some(g) = groups.iter_mut().find(|g| g.0 == *d) { g.1 = self.ts.or(g.1, rest); } else { groups.push((*d, rest)); }
                let mut alts = vec![];
                for (tg, g) in groups {
                    let g = self.simp(s, g);
                    if self.ts.cv(g) == Some(0) { continue; }
                    if light { self.cnt.unasked += 1; alts.push((g, Some(tg))); continue; }
                    if self.feasible(s, g).0 { alts.push((g, Some(tg))); } else if self.ts.cv(g).is_none() { let n = self.ts.not(g); self.restrict(s, n); }
                }
                if alts.is_empty() { return Ok(Ev::End); }
                if alts.len() == 1 { let (g, tg) = alts[0]; self.restrict(s, g); self.jump(s, tg.unwrap())?; return Ok(Ev::Go); }
                return Ok(Ev::Fork(alts));
            }
            Ins::Ret(o) => {
                let v = o.as_ref().map(|o| Self::get(fr, o));
                let fr = s.frames.pop().unwrap();
                if s.mem.stack.len() > fr.sbase { Rc::make_mut(&mut s.mem.stack).truncate(fr.sbase); }
                s.mem.sp = fr.sp;
                if s.frames.is_empty() { s.at_entry = false; return Ok(Ev::Go); }
                if fr.ret_dst == Some(OTHER) {
                    let tls = std::mem::take(&mut s.pre.tls);
                    let g = Rc::make_mut(&mut s.mem.glob);
                    for (i, o) in tls.iter() { g[*i].1 = o.clone(); }
                    s.pre.mode = 4;
                    s.at_entry = false;
                    return Ok(Ev::Go);
                }
                if let (Some(d), Some(v)) = (fr.ret_dst, v) { Self::set(s, d, v); }
                match fr.ret_normal { Some(n) => self.jump(s, n)?, None => { s.at_entry = false; Rc::make_mut(s.frames.last_mut().unwrap()).ip += 1; } }
            }
            Ins::Unreachable => { self.panic_reached(s, "unreachable instruction")?; }
            Ins::Dead(m) => return fatal(format!("reached {} in {}", m, f.name)),
            Ins::Unsupported(m) => return fatal(format!("unsupported: {} ({})", m, f.name)),
            Ins::Call { dst, callee, args, ret, normal } => {
                let mut av: Vec<V> = Vec::with_capacity(args.len());
                for (_, o) in args { av.push(Self::get(fr, o)); }
                let target = match callee {
                    // no CPU features, no output
                    Callee::Asm => { if let Some(d) = dst { let v = if let Ty::St(..) = ret { V::A(Rc::new((0..ret.count()).map(|_| V::C(0)).collect())) } else { V::C(0) }; Self::set(s, *d, v); } if let Some(n) = normal { self.jump(s, *n)?; } return Ok(Ev::Go); }
                    Callee::Direct(f) => Ok(*f),
                    Callee::Ext(n) => Err(n.clone()),
                    Callee::Ind(o) => {
                        let a = Self::get(fr, o);
                        let a = self.concrete(s, &a)? as u64;
                        if a >= FN_BASE && a < EXT_BASE { Ok(((a - FN_BASE) / 16) as u32) }
                        else {
                            let e = self.m.extaddr.borrow();
                            let n = e.iter().find(|x| *x.1 == a).map(|x| x.0.clone()).or_else(|| self.m.gaddr.iter().find(|x| *x.1 == a).map(|x| x.0.clone()));
                            drop(e);
                            match n { Some(n) => Err(n.as_str().into()), None => return fatal(format!("call to address {:#x}", a)) }
                        }
                    }
                };
                match target {
                    Ok(fid) => {
                        let name = &self.m.fdefs[fid as usize].0;
                        if is_panic(name) { let n = name.clone(); self.panic_reached(s, &n)?; return Ok(Ev::End); }
                        if let Some(v) = self.override_fn(s, name, &av)? {
                            if let Some(d) = dst { Self::set(s, *d, v); }
                            if let Some(n) = normal { self.jump(s, *n)?; }
                            return Ok(Ev::Go);
                        }
                        if s.frames.len() > 400 { return fatal("call depth"); }
                        let f = self.m.func(fid).map_err(Err::Fatal)?;
                        *self.funcs_run.entry(fid).or_default() += 1;
                        let mut regs = vec![V::U; f.rty.len()];
                        for (i, v) in av.into_iter().enumerate() { if i < f.params.len() { regs[f.params[i] as usize] = v; } }
                        let fr = Frame { regs, fid, b: 0, ip: 0, ret_dst: *dst, ret_normal: *normal, sbase: s.mem.stack.len(), sp: s.mem.sp, f };
                        s.frames.push(Rc::new(fr));
                        s.at_entry = false;
                    }
                    Err(n) => {
                        let tys: Vec<Ty> = args.iter().map(|a| a.0.clone()).collect();
                        let v = self.ext(s, &n, &av, &tys, ret)?;
                        if let (Some(d), Some(v)) = (dst, v) { Self::set(s, *d, v); }
                        if let Some(n) = normal { self.jump(s, *n)?; }
                    }
                }
            }
        }
        Ok(Ev::Go)
    }
    fn sel1(&mut self, c: T, a: &V, b: &V, ty: &Ty) -> R<V> {
        if let Some(k) = self.ts.cv(c) { return Ok(if k == 1 { a.clone() } else { b.clone() }); }
        self.select(c, a, b, ty)
    }
    fn override_fn(&mut self, _s: &mut State, _name: &str, _a: &[V]) -> R<Option<V>> { Ok(None) }

    fn bool(&mut self, t: T) -> V { self.vt(t) }

    fn ext(&mut self, s: &mut State, n: &str, a: &[V], tys: &[Ty], ret: &Ty) -> R<Option<V>> {
        if let Some(i) = n.strip_prefix("llvm.") { return self.intrinsic(s, i, a, tys, ret); }
        if is_panic(n) { self.panic_reached(s, n)?; return Err(Err::End); }
        if !n.starts_with("lsx_") { *self.stubs.entry(n.to_string()).or_default() += 1; }
        Ok(match n {
            "lsx_u32" => {
                let id = self.concrete(s, &a[0])? as u32; let lo = self.concrete(s, &a[1])? as u64; let hi = self.concrete(s, &a[2])? as u64;
                if lo > hi { return fatal("lsx_u32: empty range"); }
                if let Some(v) = self.cfg.fix.get(&id) { return if *v < lo || *v > hi { Err(Err::End) } else { Ok(Some(V::C(*v as u128))) }; }
                let t = self.ts.var(id, 32, lo, hi);
                Some(self.vt(t))
            }
            "lsx_assume" => {
                self.assumes += 1;
                let t = self.tv(&a[0], 1)?;
                let t = self.simp(s, t);
                if t == self.ts.tru { return Ok(None); }
                let (ok, m) = self.feasible(s, t);
                if !ok { return Err(Err::End); }
                self.add_pc(s, t);
                if m.is_some() { s.model = m; }
                None
            }
            "lsx_check" => { let code = self.concrete(s, &a[1])? as u64; self.check(s, &a[0], code)?; None }
            "lsx_cover" => {
                let code = self.concrete(s, &a[0])? as u64;
                if !self.covers.contains_key(&code) {
                    let ok = s.model.is_some() || matches!(self.sat(&s.pc.clone(), self.ts.tru), Res::Sat(_));
                    if ok { self.covers.insert(code, 1); }
                } else { *self.covers.get_mut(&code).unwrap() += 1; }
                None
            }
            // fix the value of an input-dependent number by forking on it
            "lsx_split" => { self.keep = true; let v = self.concrete(s, &a[0])?; self.keep = false; Some(V::C(v)) }
            // from here on, writes to objects that other threads can see are noted; afterwards they are undone
            "lsx_watch" => {
                let on = self.concrete(s, &a[0])? != 0;
                if on {
                    s.mem.rec = Some(s.mem.seq);
                    s.pre.snap = Some(Rc::new((s.mem.glob.clone(), s.mem.heap.clone())));
                } else {
                    s.mem.rec = None;
                    let m = self.m;
                    let w: std::collections::BTreeSet<u64> = s.mem.wr.iter().copied().filter(|a| !m.globals.iter().any(|g| g.tls && g.addr == *a)).collect();
                    if self.cfg.trace { eprintln!("shared objects written: {:?}", w.iter().map(|a| m.globals.iter().find(|g| g.addr == *a).map_or(format!("{:#x}", a), |g| g.name.clone())).collect::<Vec<_>>()); }
                    self.shared_written.extend(w.iter());
                    s.mem.wr = Rc::new(w);
                    if let Some(p) = s.pre.snap.take() {
                        s.mem.glob = p.0.clone();
                        let h = Rc::make_mut(&mut s.mem.heap);
                        for (k, o) in p.1.iter() { h.insert(*k, o.clone()); }
                    }
                }
                Some(V::C(s.mem.wr.len() as u128))
            }
            "lsx_points" => {
                let on = self.concrete(s, &a[0])? != 0;
                if on { s.pre.count = 0; s.pre.mode = 1; } else { s.pre.mode = 0; }
                Some(V::C(s.pre.count as u32 as u128))
            }
            "lsx_preempt" => { s.pre.left = self.concrete(s, &a[0])? as u64; s.pre.mode = 2; None }
            "lsx_done" => { s.pre.mode = 0; None }
            "lsx_again" => Some(V::C(0)),
            "lsx_param" => { let i = self.concrete(s, &a[0])? as usize; Some(V::C(self.cfg.params.get(i).copied().unwrap_or(0) as u32 as u128)) }
            "lsx_log" => { if let V::C(v) = a[0] { self.logs.push(v as u64); } None }
            // register the term as a finite root (pure performance hint, returns its argument)
            // a fact about a root, shown by the solver, that restricts the values it is tabulated for
            "lsx_where" => {
                let t = self.tv(&a[0], 1)?;
                if self.ts.cv(t).is_none() && self.ts.root(t) != NOROOT && self.cnt.forks == 0 {
                    let n = self.ts.not(t);
                    match self.sat(&s.pc.clone(), n) {
                        Res::Unsat => {
                            let d: Vec<bool> = self.ts.vals(t).iter().map(|v| *v == 0).collect();
                            let l = d.iter().position(|x| !x).unwrap();
                            let r = self.ts.root(t) as usize;
                            self.ts.roots[r].dead = Some((Rc::new(d), l));
                        }
                        _ => self.incon.push("lsx_where: not shown".into()),
                    }
                }
                None
            }
            // the value, of the form f ? function of one root : function of another, becomes a root both sides are functions of;
            // 9999 marks values the solver must show impossible
            "lsx_join" => {
                if let V::T(t) = a[0] {
                    let t = self.ts.norm(t);
                    let mut ok = false;
                    if self.ts.root(t) != NOROOT { ok = true; }
                    else if let K::Ite(f, x, y) = *self.ts.k(t) {
                        if self.cnt.forks == 0 && self.ts.root(x) != NOROOT && self.ts.root(y) != NOROOT {
                            let bad: FxSet<u64> = [9999].into_iter().collect();
                            ok = true;
                            for (x, on) in [(x, true), (y, false)] {
                                let Some(e) = self.ts.map1(x, 1, |v| (v == 9999) as u64) else { ok = false; break };
                                let c = if on { f } else { self.ts.not(f) };
                                let q = self.ts.and(c, e);
                                ok &= self.ts.cv(q) == Some(0) || matches!(self.sat(&s.pc.clone(), q), Res::Unsat);
                            }
                            ok = ok && self.ts.register_join(t, &bad);
                        }
                    }
                    if !ok { self.incon.push("lsx_join: not usable".into()); if self.cfg.trace { eprintln!("join not usable: {}", self.ts.show(t, 4)); } }
                    let t = self.ts.norm(t);
                    Some(self.vt(t))
                } else { Some(a[0].clone()) }
            }
            "lsx_root" | "lsx_root64" => { if let V::T(t) = &a[0] { self.ts.register_root(*t); let t = self.ts.norm(*t); Some(self.vt(t)) } else { Some(a[0].clone()) } }
            "malloc" => { let n = self.concrete(s, &a[0])? as u64; Some(V::C(s.mem.alloc(n, 16) as u128)) }
            "calloc" => { let n = self.concrete(s, &a[0])? as u64 * self.concrete(s, &a[1])? as u64; Some(V::C(s.mem.alloc(n, 16) as u128)) }
            "aligned_alloc" => { let n = self.concrete(s, &a[1])? as u64; Some(V::C(s.mem.alloc(n, 16) as u128)) }
            "posix_memalign" => { let n = self.concrete(s, &a[2])? as u64; let p = s.mem.alloc(n, 16); self.store_bits(s, &a[0].clone(), 8, &V::C(p as u128))?; Some(V::C(0)) }
            "realloc" => {
                let p = self.concrete(s, &a[0])? as u64; let n = self.concrete(s, &a[1])? as u64;
                let q = s.mem.alloc(n, 16);
                if p != 0 {
                    let old = match s.mem.heap.get(&p) { Some(o) => o.data.len() as u64, None => return fatal("realloc of unknown block") };
                    self.copy_mem(s, &V::C(q as u128), &V::C(p as u128), old.min(n) as usize)?;
                    Rc::make_mut(&mut s.mem.heap).remove(&p);
                }
                Some(V::C(q as u128))
            }
            "free" => { let p = self.concrete(s, &a[0])? as u64; if p != 0 && Rc::make_mut(&mut s.mem.heap).remove(&p).is_none() { return self.bad_mem(s, p, 0, "free"); } None }
            "memcpy" | "memmove" => { let n = self.concrete(s, &a[2])? as usize; self.copy_mem(s, &a[0], &a[1], n)?; Some(a[0].clone()) }
            "memset" => { self.memset(s, &a[0], &a[1], &a[2])?; Some(a[0].clone()) }
            "bcmp" | "memcmp" => {
                let name_is_bcmp = n == "bcmp";
                let n = self.concrete(s, &a[2])? as usize;
                let mut eq = self.ts.tru;
                let mut res = self.ts.c(0, 32);
                let (m1, p1) = (self.ts.c(mask(32), 32), self.ts.c(1, 32));
                let mut ps = vec![];
                for i in 0..n {
                    let (x, y) = (self.add_off(&a[0], i as i64)?, self.add_off(&a[1], i as i64)?);
                    let (x, y) = (self.load_bits(s, &x, 1)?, self.load_bits(s, &y, 1)?);
                    let (x, y) = (self.tv(&x, 8)?, self.tv(&y, 8)?);
                    let e = self.ts.bin(Op::Eq, x, y);
                    eq = self.ts.and(eq, e);
                    ps.push((x, y, e));
                    if e == self.ts.fls { break; }
                }
                for (x, y, e) in ps.into_iter().rev() {
                    let lt = self.ts.bin(Op::Ult, x, y);
                    let d = self.ts.ite(lt, m1, p1);
                    res = self.ts.ite(e, res, d);
                }
                if name_is_bcmp { let z = self.ts.c(0, 32); res = self.ts.ite(eq, z, p1); }
                Some(self.vt(res))
            }
            "strlen" => { let p = self.concrete(s, &a[0])? as u64; let mut k = 0; loop { match self.load_bits(s, &V::C((p + k) as u128), 1)? { V::C(0) => break, V::C(_) => k += 1, _ => return fatal("symbolic strlen") } } Some(V::C(k as u128)) }
            "abort" | "_Unwind_Resume" | "__rust_start_panic" | "exit" => { self.panic_reached(s, n)?; return Err(Err::End); }
            "getrandom" => { let n = self.concrete(s, &a[1])? as u64; self.fill_random(s, &a[0].clone(), n)?; Some(V::C(n as u128)) }
            "syscall" => {
                let k = self.concrete(s, &a[0])?;
                if k == 318 { let n = self.concrete(s, &a[2])? as u64; self.fill_random(s, &a[1].clone(), n)?; Some(V::C(n as u128)) } else if k == 202 && s.pre.mode == 3 { return Err(Err::End) } else if k == 202 { Some(V::C(0)) } else { return fatal(format!("syscall {}", k)) }
            }
            "getenv" => Some(V::C(0)),
            "write" => Some(a[2].clone()),
            "pthread_atfork" | "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_mutex_lock" | "pthread_mutex_unlock" => Some(V::C(0)),
            "__rust_no_alloc_shim_is_unstable" | "__rust_no_alloc_shim_is_unstable_v2" => None,
            "dlsym" => Some(V::C(0)),
            _ if n.contains("no_alloc_shim_is_unstable") => None,
            _ => return fatal(format!("external function {}", n)),
        })
    }
    fn fill_random(&mut self, s: &mut State, p: &V, n: u64) -> R<()> {
        for i in 0..n {
            self.rng_state = self.rng_state.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407 + self.cfg.params.last().copied().unwrap_or(0));
            let b = (self.rng_state >> 33) as u8;
            let ai = self.add_off(p, i as i64)?;
            self.store_bits(s, &ai, 1, &V::C(b as u128))?;
        }
        Ok(())
    }
    fn memset(&mut self, s: &mut State, p: &V, v: &V, n: &V) -> R<()> {
        let n = self.concrete(s, n)? as u64;
        if n == 0 { return Ok(()); }
        if let (V::C(p), V::C(v)) = (p, v) {
            match s.mem.get_mut(*p as u64, n) {
                Some((off, o)) => { o.data[off..off + n as usize].fill(*v as u8); if let Some(sy) = &mut o.sym { sy[off..off + n as usize].fill(NOSYM); } return Ok(()); }
                None => return self.bad_mem(s, *p as u64, n, "write"),
            }
        }
        let b = match v { V::T(t) if self.ts.w(*t) > 8 => { let e = self.ts.ext(7, 0, *t); self.vt(e) } V::C(c) => V::C(c & 0xff), x => x.clone() };
        for i in 0..n { let ai = self.add_off(p, i as i64)?; self.store_bits(s, &ai, 1, &b)?; }
        Ok(())
    }

    fn popcount(&mut self, t: T, w: u16) -> T {
        let mut acc = self.ts.c(0, w);
        for i in 0..w { let b = self.ts.ext(i, i, t); let z = if w > 1 { self.ts.zext(b, w) } else { b }; acc = self.ts.bin(Op::Add, acc, z); }
        acc
    }
    fn unary(&mut self, name: &str, w: u16, v: &V) -> R<V> {
        let f = |x: u64| -> u64 {
            let m = mask(w) as u64;
            match name {
                "ctpop" => x.count_ones() as u64,
                "cttz" => if x == 0 { w as u64 } else { x.trailing_zeros() as u64 },
                "ctlz" => if x == 0 { w as u64 } else { x.leading_zeros() as u64 - (64 - w as u64) },
                "bswap" => x.swap_bytes() >> (64 - w as u64),
                "bitreverse" => x.reverse_bits() >> (64 - w as u64),
                "abs" => { let y = sx(x as u128, w); (if y < 0 { -y } else { y }) as u64 & m }
                _ => unreachable!(),
            }
        };
        if let V::C(c) = v {
            if w <= 64 { return Ok(V::C(f(*c as u64) as u128)); }
            return Ok(V::C(match name { "ctpop" => c.count_ones() as u128, "cttz" => c.trailing_zeros() as u128, "ctlz" => c.leading_zeros() as u128, "bswap" => c.swap_bytes(), "bitreverse" => c.reverse_bits(), _ => return fatal("128-bit abs") }));
        }
        let t = self.tv(v, w)?;
        if w <= 64 { if let Some(r) = self.ts.map1(t, w, f) { return Ok(self.vt(r)); } }
        let r = match name {
            "ctpop" => self.popcount(t, w),
            "cttz" | "ctlz" => {
                let mut acc = self.ts.c(w as u128, w);
                for k in 0..w {
                    let i = if name == "cttz" { w - 1 - k } else { k };
                    let b = self.ts.ext(i, i, t);
                    let c = self.ts.c(if name == "cttz" { i } else { w - 1 - i } as u128, w);
                    acc = self.ts.ite(b, c, acc);
                }
                acc
            }
            "bswap" => { let mut acc = self.ts.ext(7, 0, t); for i in 1..w / 8 { let b = self.ts.ext(8 * i + 7, 8 * i, t); acc = self.ts.cat(acc, b); } acc }
            "bitreverse" => { let mut acc = self.ts.ext(0, 0, t); for i in 1..w { let b = self.ts.ext(i, i, t); acc = self.ts.cat(acc, b); } acc }
            "abs" => { let z = self.ts.c(0, w); let neg = self.ts.bin(Op::Slt, t, z); let m = self.ts.bin(Op::Sub, z, t); self.ts.ite(neg, m, t) }
            _ => unreachable!(),
        };
        Ok(self.vt(r))
    }
    fn binary(&mut self, name: &str, w: u16, a: &V, b: &V) -> R<V> {
        let (x, y) = (self.tv(a, w)?, self.tv(b, w)?);
        let lt = |e: &mut Self, x: T, y: T, sg: bool| e.ts.bin(if sg { Op::Slt } else { Op::Ult }, x, y);
        let t = match name {
            "umin" => { let c = lt(self, x, y, false); self.ts.ite(c, x, y) }
            "umax" => { let c = lt(self, y, x, false); self.ts.ite(c, x, y) }
            "smin" => { let c = lt(self, x, y, true); self.ts.ite(c, x, y) }
            "smax" => { let c = lt(self, y, x, true); self.ts.ite(c, x, y) }
            "usub.sat" => { let c = lt(self, x, y, false); let d = self.ts.bin(Op::Sub, x, y); let z = self.ts.c(0, w); self.ts.ite(c, z, d) }
            "uadd.sat" => { let d = self.ts.bin(Op::Add, x, y); let c = self.add_ovf(x, y, d); let m = self.ts.c(mask(w), w); self.ts.ite(c, m, d) }
            _ => return fatal(format!("intrinsic {}", name)),
        };
        Ok(self.vt(t))
    }
    fn add_ovf(&mut self, x: T, y: T, d: T) -> T {
        let w = self.ts.w(x);
        if w < 128 && self.ts.m[x as usize].hi + self.ts.m[y as usize].hi <= mask(w) { return self.ts.fls; }
        self.ts.bin(Op::Ult, d, x)
    }

    fn intrinsic(&mut self, s: &mut State, n: &str, a: &[V], tys: &[Ty], ret: &Ty) -> R<Option<V>> {
        let is = |p: &str| n.starts_with(p);
        if is("lifetime.") || is("assume") || is("experimental.noalias") || is("dbg.") || is("donothing") || is("prefetch") || is("invariant.") || is("x86.sse2.pause") || is("sideeffect") { return Ok(if *ret == Ty::Void { None } else { Some(V::C(0)) }); }
        if is("memcpy") || is("memmove") { let k = self.concrete(s, &a[2])? as usize; self.copy_mem(s, &a[0], &a[1], k)?; return Ok(None); }
        if is("memset") { self.memset(s, &a[0], &a[1], &a[2])?; return Ok(None); }
        if is("trap") || is("ubsantrap") || is("debugtrap") { self.panic_reached(s, "trap")?; return Err(Err::End); }
        if is("is.constant") { return Ok(Some(V::C(0))); }
        if is("expect.") || is("threadlocal.address") || is("launder.") || is("strip.") || is("ssa.copy") { return Ok(Some(a[0].clone())); }
        if is("load.relative") {
            let o = self.concrete(s, &a[1]).ok();
            let at = if let (V::C(p), Some(o)) = (&a[0], o) { V::C((*p as u64).wrapping_add(o as u64) as u128) } else { let (p, q) = (self.tv(&a[0], 64)?, self.tv(&a[1], 64)?); let t = self.ts.bin(Op::Add, p, q); self.vt(t) };
            let v = self.load_bits(s, &at, 4)?;
            let t = self.tv(&v, 32)?; let t = self.ts.sext(t, 64); let p = self.tv(&a[0], 64)?; let r = self.ts.bin(Op::Add, p, t);
            return Ok(Some(self.vt(r)));
        }
        if is("ptrmask") { return Ok(Some(self.binop(BinOp::And, 64, &a[0], &a[1])?)); }
        for u in ["ctpop", "cttz", "ctlz", "bswap", "bitreverse", "abs"] {
            if is(u) && n.as_bytes().get(u.len()) == Some(&b'.') {
                if let (Ty::Vec(k, et), V::A(x)) = (ret, &a[0]) { let mut v = vec![]; for i in 0..*k as usize { v.push(self.unary(u, et.bits(), &x[i])?); } return Ok(Some(V::A(Rc::new(v)))); }
                return Ok(Some(self.unary(u, ret.bits(), &a[0])?));
            }
        }
        for u in ["umin", "umax", "smin", "smax", "usub.sat", "uadd.sat"] {
            if is(u) && n.as_bytes().get(u.len()) == Some(&b'.') {
                if let (Ty::Vec(k, et), V::A(x), V::A(y)) = (ret, &a[0], &a[1]) { let mut v = vec![]; for i in 0..*k as usize { v.push(self.binary(u, et.bits(), &x[i], &y[i])?); } return Ok(Some(V::A(Rc::new(v)))); }
                return Ok(Some(self.binary(u, ret.bits(), &a[0], &a[1])?));
            }
        }
        if let (true, Ty::Vec(k, et)) = (is("fshl.") || is("fshr."), ret) {
            let et = (**et).clone();
            let lane = |x: &V, i: usize| match x { V::A(v) => v[i].clone(), v => v.clone() };
            let mut v = vec![];
            for i in 0..*k as usize {
                let b: Vec<V> = a.iter().map(|x| lane(x, i)).collect();
                v.push(self.intrinsic(s, if is("fshl.") { "fshl.x" } else { "fshr.x" }, &b, &[et.clone(), et.clone(), et.clone()], &et)?.unwrap());
            }
            return Ok(Some(V::A(Rc::new(v))));
        }
        if is("fshl.") || is("fshr.") {
            let w = ret.bits();
            let k = self.tv(&a[2], w)?;
            let (x, y) = (self.tv(&a[0], w)?, self.tv(&a[1], w)?);
            let wm = self.ts.c(w as u128, w);
            let k = self.ts.bin(Op::URem, k, wm);
            let inv = self.ts.bin(Op::Sub, wm, k);
            let r = if is("fshl.") { let p = self.ts.bin(Op::Shl, x, k); let q = self.ts.bin(Op::LShr, y, inv); self.ts.bin(Op::Or, p, q) } else { let p = self.ts.bin(Op::Shl, x, inv); let q = self.ts.bin(Op::LShr, y, k); self.ts.bin(Op::Or, p, q) };
            return Ok(Some(self.vt(r)));
        }
        if is("ucmp.") || is("scmp.") {
            let w = tys[0].bits(); let rw = ret.bits();
            let (x, y) = (self.tv(&a[0], w)?, self.tv(&a[1], w)?);
            let op = if is("ucmp.") { Op::Ult } else { Op::Slt };
            let (l, g) = (self.ts.bin(op, x, y), self.ts.bin(op, y, x));
            let (m1, z, p1) = (self.ts.c(mask(rw), rw), self.ts.c(0, rw), self.ts.c(1, rw));
            let i = self.ts.ite(g, p1, z);
            let r = self.ts.ite(l, m1, i);
            return Ok(Some(self.vt(r)));
        }
        if n.contains(".with.overflow.") {
            let w = tys[0].bits();
            let (x, y) = (self.tv(&a[0], w)?, self.tv(&a[1], w)?);
            let op = if n[1..].starts_with("add") { Op::Add } else if n[1..].starts_with("sub") { Op::Sub } else { Op::Mul };
            let r = self.ts.bin(op, x, y);
            let o = match (&n[..1], op) {
                ("u", Op::Add) => self.add_ovf(x, y, r),
                ("u", Op::Sub) => self.ts.bin(Op::Ult, x, y),
                ("u", _) => {
                    let (hx, hy) = (self.ts.m[x as usize].hi, self.ts.m[y as usize].hi);
                    if hx.checked_mul(hy).map_or(false, |p| p <= mask(w)) { self.ts.fls }
                    else if let Some(c) = self.ts.cv(y) { if c == 0 { self.ts.fls } else { let l = self.ts.c(mask(w) / c, w); self.ts.bin(Op::Ult, l, x) } }
                    else if let Some(c) = self.ts.cv(x) { if c == 0 { self.ts.fls } else { let l = self.ts.c(mask(w) / c, w); self.ts.bin(Op::Ult, l, y) } }
                    else if w <= 64 { let (p, q) = (self.ts.zext(x, 2 * w), self.ts.zext(y, 2 * w)); let m = self.ts.bin(Op::Mul, p, q); let h = self.ts.ext(2 * w - 1, w, m); let z = self.ts.c(0, w); let e = self.ts.bin(Op::Eq, h, z); self.ts.not(e) }
                    else { return fatal("umul overflow width") }
                }
                ("s", Op::Add) => { let p = self.ts.bin(Op::Xor, x, r); let q = self.ts.bin(Op::Xor, y, r); let z = self.ts.bin(Op::And, p, q); self.ts.ext(w - 1, w - 1, z) }
                ("s", Op::Sub) => { let p = self.ts.bin(Op::Xor, x, y); let q = self.ts.bin(Op::Xor, x, r); let z = self.ts.bin(Op::And, p, q); self.ts.ext(w - 1, w - 1, z) }
                _ => { if w > 64 { return fatal("smul overflow width"); } let (p, q) = (self.ts.sext(x, 2 * w), self.ts.sext(y, 2 * w)); let m = self.ts.bin(Op::Mul, p, q); let e = self.ts.sext(r, 2 * w); let e = self.ts.bin(Op::Eq, m, e); self.ts.not(e) }
            };
            let (r, o) = (self.vt(r), self.bool(o));
            return Ok(Some(V::A(Rc::new(vec![r, o]))));
        }
        if let Some(r) = n.strip_prefix("vector.reduce.") {
            let op = r.split('.').next().unwrap();
            let Ty::Vec(_, et) = &tys[0] else { return fatal("reduce") };
            let V::A(x) = &a[0] else { return fatal("reduce") };
            let w = et.bits();
            let mut acc = x[0].clone();
            for v in &x[1..] { acc = match op { "or" => self.binop(BinOp::Or, w, &acc, v)?, "and" => self.binop(BinOp::And, w, &acc, v)?, "xor" => self.binop(BinOp::Xor, w, &acc, v)?, "add" => self.binop(BinOp::Add, w, &acc, v)?, "mul" => self.binop(BinOp::Mul, w, &acc, v)?, o => self.binary(o, w, &acc, v)? }; }
            return Ok(Some(acc));
        }
        fatal(format!("intrinsic llvm.{}", n))
    }
    pub fn fork_report(&self) -> Vec<(String, u64)> {
        let mut v: Vec<(String, u64)> = self.fork_loc.iter().map(|(k, n)| { let f = self.m.func(k.0).unwrap(); (format!("{}:{}", f.name, f.blocks[k.1 as usize].name), *n) }).collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1));
        v.truncate(20);
        v
    }
}
