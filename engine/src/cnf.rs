//! Bit-blasting of terms to CNF and one-shot SAT solver runs.

use std::io::Write;
use std::process::{Command, Stdio};
use std::rc::Rc;
use crate::smt::Res;
use crate::term::*;

pub type L = i32; // DIMACS literal; TRUE is literal 1

pub struct Cnf { pub nv: i32, pub buf: Vec<u8>, pub nc: usize, memo: FxMap<T, Rc<Vec<L>>>, guards: FxMap<u32, Rc<Vec<L>>>, ands: FxMap<(L, L), L>, xors: FxMap<(L, L), L>, muxes: FxMap<(L, L, L), L>, pub vars: FxMap<u32, Vec<L>>, pub order: Vec<u32>, abs: bool, pub free: FxSet<T> }

impl Cnf {
    pub fn new(abs: bool) -> Cnf {
        let mut c = Cnf { nv: 1, buf: Vec::with_capacity(1 << 20), nc: 0, memo: Default::default(), guards: Default::default(), ands: Default::default(), xors: Default::default(), muxes: Default::default(), vars: Default::default(), order: vec![], abs, free: Default::default() };
        c.clause(&[1]);
        c
    }
    fn fresh(&mut self) -> L { self.nv += 1; self.nv }
    pub fn clause(&mut self, ls: &[L]) {
        let mut out = [0u8; 12];
        for &l in ls.iter().chain([0].iter()) {
            // fast integer formatting
            let mut n = l.unsigned_abs();
            let mut k = 12;
            loop { k -= 1; out[k] = b'0' + (n % 10) as u8; n /= 10; if n == 0 { break; } }
            if l < 0 { k -= 1; out[k] = b'-'; }
            self.buf.extend_from_slice(&out[k..]);
            self.buf.push(if l == 0 { b'\n' } else { b' ' });
        }
        self.nc += 1;
    }
    fn konst(b: bool) -> L { if b { 1 } else { -1 } }
    fn and(&mut self, a: L, b: L) -> L {
        if a == -1 || b == -1 || a == -b { return -1; }
        if a == 1 { return b; }
        if b == 1 || a == b { return a; }
        let k = (a.min(b), a.max(b));
        if let Some(x) = self.ands.get(&k) { return *x; }
        let x = self.fresh();
        self.clause(&[-x, a]); self.clause(&[-x, b]); self.clause(&[x, -a, -b]);
        self.ands.insert(k, x);
        x
    }
    fn or(&mut self, a: L, b: L) -> L { -self.and(-a, -b) }
    fn xor(&mut self, a: L, b: L) -> L {
        if a == 1 { return -b; } if a == -1 { return b; } if b == 1 { return -a; } if b == -1 { return a; }
        if a == b { return -1; } if a == -b { return 1; }
        let s = (a < 0) ^ (b < 0);
        let (p, q) = (a.abs().min(b.abs()), a.abs().max(b.abs()));
        let x = match self.xors.get(&(p, q)) { Some(x) => *x, None => {
            let x = self.fresh();
            self.clause(&[-x, p, q]); self.clause(&[-x, -p, -q]); self.clause(&[x, -p, q]); self.clause(&[x, p, -q]);
            self.xors.insert((p, q), x);
            x
        } };
        if s { -x } else { x }
    }
    fn mux(&mut self, c: L, a: L, b: L) -> L {
        if c == 1 { return a; } if c == -1 { return b; } if a == b { return a; }
        if a == 1 { return self.or(c, b); } if a == -1 { return self.and(-c, b); }
        if b == 1 { return self.or(-c, a); } if b == -1 { return self.and(c, a); }
        if a == -b { return self.xor(c, b); }
        let (c, a, b) = if c < 0 { (-c, b, a) } else { (c, a, b) };
        if let Some(x) = self.muxes.get(&(c, a, b)) { return *x; }
        let x = self.fresh();
        self.clause(&[-c, -a, x]); self.clause(&[-c, a, -x]); self.clause(&[c, -b, x]); self.clause(&[c, b, -x]);
        self.clause(&[-a, -b, x]); self.clause(&[a, b, -x]);
        self.muxes.insert((c, a, b), x);
        x
    }
    fn big_or(&mut self, v: &[L]) -> L {
        let mut w: Vec<L> = vec![];
        for &l in v { if l == 1 { return 1; } if l != -1 { w.push(l); } }
        w.sort(); w.dedup();
        match w.len() { 0 => return -1, 1 => return w[0], 2 => return self.or(w[0], w[1]), _ => {} }
        let x = self.fresh();
        for &l in &w { self.clause(&[x, -l]); }
        w.push(-x);
        self.clause(&w);
        x
    }
    fn full(&mut self, a: L, b: L, c: L) -> (L, L) {
        let t = self.xor(a, b);
        let s = self.xor(t, c);
        let p = self.and(a, b);
        let q = self.and(t, c);
        (s, self.or(p, q))
    }
    fn add(&mut self, a: &[L], b: &[L], mut c: L) -> Vec<L> { let mut o = vec![]; for i in 0..a.len() { let (s, k) = self.full(a[i], b[i], c); o.push(s); c = k; } o }
    fn neg(v: &[L]) -> Vec<L> { v.iter().map(|x| -x).collect() }
    fn ult(&mut self, a: &[L], b: &[L]) -> L { let mut r = -1; for i in 0..a.len() { let d = self.xor(a[i], b[i]); r = self.mux(d, b[i], r); } r }
    fn eq(&mut self, a: &[L], b: &[L]) -> L { let v: Vec<L> = (0..a.len()).map(|i| self.xor(a[i], b[i])).collect(); -self.big_or(&v) }
    fn muxv(&mut self, c: L, a: &[L], b: &[L]) -> Vec<L> { (0..a.len()).map(|i| self.mux(c, a[i], b[i])).collect() }
    fn shift(&mut self, a: &[L], k: &[L], left: bool, fill: L) -> Vec<L> {
        let n = a.len();
        let mut v = a.to_vec();
        let mut over = vec![];
        for (j, &s) in k.iter().enumerate() {
            if j >= 31 || (1usize << j) >= n { over.push(s); continue; }
            let d = 1usize << j;
            let sh: Vec<L> = (0..n).map(|i| if left { if i >= d { v[i - d] } else { fill } } else if i + d < n { v[i + d] } else { fill }).collect();
            v = self.muxv(s, &sh, &v);
        }
        let o = self.big_or(&over);
        let f = vec![fill; n];
        self.muxv(o, &f, &v)
    }
    fn mul(&mut self, a: &[L], b: &[L]) -> Vec<L> {
        let n = a.len();
        let (a, b) = if b.iter().filter(|x| x.abs() == 1).count() > a.iter().filter(|x| x.abs() == 1).count() { (b, a) } else { (a, b) };
        let mut acc = vec![-1; n];
        for i in 0..n {
            if a[i] == -1 { continue; }
            let row: Vec<L> = (0..n).map(|j| if j < i { -1 } else { self.and(a[i], b[j - i]) }).collect();
            acc = self.add(&acc, &row, -1);
        }
        acc
    }
    fn divrem(&mut self, a: &[L], b: &[L]) -> (Vec<L>, Vec<L>) {
        let n = a.len();
        let mut r = vec![-1; n + 1];
        let mut bx = b.to_vec(); bx.push(-1);
        let mut q = vec![-1; n];
        for i in (0..n).rev() {
            r.insert(0, a[i]); r.pop();
            let lt = self.ult(&r, &bx);
            let nb = Self::neg(&bx);
            let d = self.add(&r, &nb, 1);
            r = self.muxv(lt, &r, &d);
            q[i] = -lt;
        }
        r.pop();
        (q, r) // b == 0 gives q = all ones, r = a
    }

    fn guard(&mut self, ts: &Terms, r: u32) -> Rc<Vec<L>> {
        if let Some(g) = self.guards.get(&r) { return g.clone(); }
        let root = &ts.roots[r as usize];
        let v: Vec<L> = match &root.kind {
            RootKind::Guards(g) => g.iter().map(|t| self.memo_of(ts, *t)[0]).collect(),
            _ => { let bits = self.memo_of(ts, root.term); root.keys.iter().map(|k| { let kb: Vec<L> = (0..bits.len()).map(|i| -Self::konst(k >> i & 1 == 1).signum() * bits[i]).collect(); -self.big_or(&kb) }).collect() }
        };
        // the guards of a root partition the input space
        if v.len() > 1 { self.clause(&v); }
        let v = Rc::new(v);
        self.guards.insert(r, v.clone());
        v
    }
    /// Identifies the clause set up to renaming of the inputs (their ranges are clauses as well).
    pub fn fingerprint(&self) -> (u64, u64) {
        use std::hash::{Hash, Hasher};
        let mut a = std::collections::hash_map::DefaultHasher::new();
        let mut b = std::collections::hash_map::DefaultHasher::new();
        1u8.hash(&mut b);
        a.write(&self.buf);
        b.write(&self.buf);
        (a.finish(), b.finish() ^ self.nv as u64)
    }
    /// Literal of a boolean term, if everything it needs is already part of the encoding.
    pub fn known(&mut self, ts: &Terms, t: T) -> Option<L> {
        if let Some(v) = ts.cv(t) { return Some(Self::konst(v == 1)); }
        if let Some(b) = self.memo.get(&t) { return Some(b[0]); }
        match ts.k(t) {
            K::Tab(r, _) if self.guards.contains_key(r) => {}
            K::Bin(Op::And | Op::Or | Op::Xor, a, b) => { let (a, b) = (*a, *b); self.known(ts, a)?; self.known(ts, b)?; }
            _ => return None,
        }
        Some(self.bits(ts, t)[0])
    }
    fn memo_of(&self, ts: &Terms, t: T) -> Rc<Vec<L>> {
        if let Some(c) = ts.cv(t) { return Rc::new((0..ts.w(t)).map(|i| Self::konst(c >> i & 1 == 1)).collect()); }
        self.memo[&t].clone()
    }
    fn deps(&self, ts: &Terms, t: T, v: &mut Vec<T>) {
        if self.free.contains(&t) { return; }
        let k = ts.form(t);
        let tabroot = match &k { K::Tab(r, _) => Some(*r), K::Ite(..) if matches!(ts.k(t), K::Tab(..)) => None, K::Var(_) => None, _ => { let r = ts.root(t); if r != NOROOT && matches!(ts.roots[r as usize].kind, RootKind::Guards(_)) { Some(r) } else { None } } };
        if let Some(r) = tabroot {
            if self.abs || self.guards.contains_key(&r) { return; }
            let root = &ts.roots[r as usize];
            match &root.kind { RootKind::Guards(g) => v.extend(g.iter().copied()), _ => v.push(root.term) }
            return;
        }
        match &k {
            K::Bin(_, a, b) | K::Cat(a, b) => { v.push(*a); v.push(*b) }
            K::Ite(a, b, c) => { v.push(*a); v.push(*b); v.push(*c) }
            K::Ext(_, _, a) | K::ZExt(a) | K::SExt(a) => v.push(*a),
            _ => {}
        }
    }
    pub fn bits(&mut self, ts: &Terms, t: T) -> Rc<Vec<L>> {
        let mut st = vec![(t, false)];
        let mut dv = vec![];
        while let Some((x, ready)) = st.pop() {
            if ts.cv(x).is_some() || self.memo.contains_key(&x) { continue; }
            if !ready {
                st.push((x, true));
                dv.clear();
                self.deps(ts, x, &mut dv);
                for d in &dv { if ts.cv(*d).is_none() && !self.memo.contains_key(d) { st.push((*d, false)); } }
                continue;
            }
            let b = self.blast(ts, x);
            self.memo.insert(x, Rc::new(b));
        }
        self.memo_of(ts, t)
    }
    fn blast(&mut self, ts: &Terms, t: T) -> Vec<L> {
        let w = ts.w(t) as usize;
        let k = ts.form(t);
        let tabbed = match &k { K::Tab(r, a) => Some((*r, ts.arrs[*a as usize].clone())), K::Ite(..) if matches!(ts.k(t), K::Tab(..)) => None, K::Var(_) => None, _ => { let r = ts.root(t); if r != NOROOT && matches!(ts.roots[r as usize].kind, RootKind::Guards(_)) { Some((r, ts.roots[r as usize].keys.clone())) } else { None } } };
        let opaque = self.free.contains(&t);
        if opaque || tabbed.is_some() {
            if self.abs || opaque {
                let m = &ts.m[t as usize];
                let nb = (128 - m.hi.leading_zeros()) as usize;
                let bits: Vec<L> = (0..nb).map(|_| self.fresh()).collect();
                let c = |x: u128| -> Vec<L> { (0..nb).map(|i| Self::konst(x >> i & 1 == 1)).collect() };
                let l = self.ult(&c(m.hi), &bits); self.clause(&[-l]);
                let l = self.ult(&bits, &c(m.lo)); self.clause(&[-l]);
                let mut b = bits; b.resize(w, -1); return b;
            }
            let (r, arr) = tabbed.unwrap();
            let g = self.guard(ts, r);
            return (0..w).map(|b| {
                let on = arr.iter().filter(|x| **x >> b & 1 == 1).count();
                let inv = on * 2 > arr.len();
                let v: Vec<L> = (0..arr.len()).filter(|i| (arr[*i] >> b & 1 == 1) != inv).map(|i| g[i]).collect();
                let x = self.big_or(&v);
                if inv { -x } else { x }
            }).collect();
        }
        match k {
            K::Const(_) | K::Tab(..) => unreachable!(),
            K::Var(i) => {
                let v = &ts.vars[i as usize];
                let nb = (64 - v.hi.leading_zeros()) as usize;
                let bits: Vec<L> = (0..nb).map(|_| self.fresh()).collect();
                let c = |x: u64| -> Vec<L> { (0..nb).map(|i| Self::konst(x >> i & 1 == 1)).collect() };
                let l = self.ult(&c(v.hi), &bits); self.clause(&[-l]);
                let l = self.ult(&bits, &c(v.lo)); self.clause(&[-l]);
                self.vars.insert(i, bits.clone());
                self.order.push(i);
                let mut b = bits; b.resize(w, -1); b
            }
            K::Bin(op, a, b) => {
                let (x, y) = (self.memo_of(ts, a), self.memo_of(ts, b));
                match op {
                    Op::And => (0..w).map(|i| self.and(x[i], y[i])).collect(),
                    Op::Or => (0..w).map(|i| self.or(x[i], y[i])).collect(),
                    Op::Xor => (0..w).map(|i| self.xor(x[i], y[i])).collect(),
                    Op::Add => self.add(&x, &y, -1),
                    Op::Sub => { let n = Self::neg(&y); self.add(&x, &n, 1) }
                    Op::Mul => self.mul(&x, &y),
                    Op::UDiv => self.divrem(&x, &y).0,
                    Op::URem => self.divrem(&x, &y).1,
                    Op::SDiv | Op::SRem => {
                        let z = vec![-1; w];
                        let (sa, sb) = (x[w - 1], y[w - 1]);
                        let nx = { let n = Self::neg(&x); self.add(&z, &n, 1) };
                        let ny = { let n = Self::neg(&y); self.add(&z, &n, 1) };
                        let (ax, ay) = (self.muxv(sa, &nx, &x), self.muxv(sb, &ny, &y));
                        let (q, r) = self.divrem(&ax, &ay);
                        if op == Op::SDiv { let nq = { let n = Self::neg(&q); self.add(&z, &n, 1) }; let s = self.xor(sa, sb); self.muxv(s, &nq, &q) }
                        else { let nr = { let n = Self::neg(&r); self.add(&z, &n, 1) }; self.muxv(sa, &nr, &r) }
                    }
                    Op::Shl => self.shift(&x, &y, true, -1),
                    Op::LShr => self.shift(&x, &y, false, -1),
                    Op::AShr => { let f = x[w - 1]; self.shift(&x, &y, false, f) }
                    Op::Eq => vec![self.eq(&x, &y)],
                    Op::Ult => vec![self.ult(&x, &y)],
                    Op::Ule => vec![-self.ult(&y, &x)],
                    Op::Slt | Op::Sle => { let n = x.len(); let (mut p, mut q) = (x.to_vec(), y.to_vec()); p[n - 1] = -p[n - 1]; q[n - 1] = -q[n - 1]; if op == Op::Slt { vec![self.ult(&p, &q)] } else { vec![-self.ult(&q, &p)] } }
                }
            }
            K::Ite(c, a, b) => { let (c, x, y) = (self.memo_of(ts, c)[0], self.memo_of(ts, a), self.memo_of(ts, b)); self.muxv(c, &x, &y) }
            K::Ext(h, l, a) => self.memo_of(ts, a)[l as usize..=h as usize].to_vec(),
            K::Cat(a, b) => { let mut v = self.memo_of(ts, b).to_vec(); v.extend(self.memo_of(ts, a).iter()); v }
            K::ZExt(a) => { let mut v = self.memo_of(ts, a).to_vec(); v.resize(w, -1); v }
            K::SExt(a) => { let mut v = self.memo_of(ts, a).to_vec(); let s = *v.last().unwrap(); v.resize(w, s); v }
        }
    }

    pub fn solve(self, ts: &Terms, solver: &str, secs: u64, dump: Option<String>) -> Res {
        let mut head = format!("p cnf {} {}\n", self.nv, self.nc).into_bytes();
        head.extend_from_slice(&self.buf);
        if let Some(d) = dump { let _ = std::fs::write(d, &head); }
        let args: Vec<String> = if solver.contains("kissat") { vec!["-q".into(), format!("--time={}", secs)] } else if solver.contains("cadical") { vec!["-q".into(), "-t".into(), secs.to_string()] } else { vec![] };
        let mut c = match Command::new(solver).args(&args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() { Ok(c) => c, Err(e) => return Res::Unknown(format!("{}: {}", solver, e)) };
        let mut i = c.stdin.take().unwrap();
        let th = std::thread::spawn(move || { let _ = i.write_all(&head); });
        let o = match c.wait_with_output() { Ok(o) => o, Err(e) => return Res::Unknown(e.to_string()) };
        let _ = th.join();
        let text = String::from_utf8_lossy(&o.stdout).into_owned();
        let ans = text.lines().find(|l| l.starts_with("s ")).unwrap_or("").to_string();
        match ans.as_str() {
            "s UNSATISFIABLE" => Res::Unsat,
            "s SATISFIABLE" => {
                let mut on: FxSet<i32> = Default::default();
                for l in text.lines().filter(|l| l.starts_with("v ")) { for x in l[2..].split_whitespace() { if let Ok(k) = x.parse::<i32>() { if k > 0 { on.insert(k); } } } }
                let mut m: Vec<u64> = ts.vars.iter().map(|v| v.lo).collect();
                for (i, bits) in &self.vars { let mut x = 0u64; for (k, b) in bits.iter().enumerate() { if on.contains(b) { x |= 1 << k; } } m[*i as usize] = x; }
                Res::Sat(m)
            }
            _ => Res::Unknown(format!("{}: no answer", solver)),
        }
    }
}
