//! Hash-consed bit-vector terms with "root tables": a term that depends on a single small-domain
//! root term is kept as an explicit finite function of that root.

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, bytes: &[u8]) {
        let mut ch = bytes.chunks_exact(8);
        for c in &mut ch { self.write_u64(u64::from_le_bytes(c.try_into().unwrap())); }
        for &b in ch.remainder() { self.write_u64(b as u64); }
    }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95);
        self.0 ^= self.0 >> 29;
    }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type T = u32;
pub const NOROOT: u32 = u32::MAX;
/// Largest number of values a term may take to be treated as a finite-domain root.
pub const ROOT_LIMIT: usize = 16384;
const CROSS_LIMIT: usize = 600_000;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op { Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr, And, Or, Xor, Eq, Ult, Ule, Slt, Sle }
use Op::*;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const(u128),
    Var(u32),
    Tab(u32, u32),
    Bin(Op, T, T),
    Ite(T, T, T),
    Ext(u16, u16, T),
    Cat(T, T),
    ZExt(T),
    SExt(T),
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Node { pub k: K, pub w: u16 }

#[derive(Clone, Copy)]
pub struct Meta { pub root: u32, epoch: u32, normed: T, pub lo: u128, pub hi: u128, shape: u64, sup: u128 }

/// Max: the larger of two roots of one family, as the term's if-then-else says.
pub enum RootKind { Var, Guards(Vec<T>), Interval, Max(T) }
pub struct Root { pub term: T, pub keys: Rc<Vec<u64>>, pub kind: RootKind, /** values shown impossible, and the first possible one */ pub dead: Option<(Rc<Vec<bool>>, usize)> }

/// A root P that is one function of root `ra` where the condition `f` holds and one of root `rb` where it does not, so that
/// every `ite(f, function of ra, function of rb)` is a function of P.
pub struct Join { pub f: T, pub fneg: bool, pub ra: u32, pub rb: u32, pub p: u32, /** for each value of P: is it on the side of f, and the position in ra or rb */ pub side: Vec<Option<(bool, u32)>> }

pub struct VarInfo { pub id: u32, pub w: u16, pub lo: u64, pub hi: u64, pub term: T }

pub struct Terms {
    pub n: Vec<Node>,
    pub m: Vec<Meta>,
    map: FxMap<Node, T>,
    pub arrs: Vec<Rc<Vec<u64>>>,
    arrmap: FxMap<Rc<Vec<u64>>, u32>,
    pub roots: Vec<Root>,
    pub vars: Vec<VarInfo>,
    epoch: u32,
    vsmemo: FxMap<T, Option<Rc<Vec<(u64, T)>>>>,
    alias: FxMap<T, T>,
    guardsets: FxMap<Vec<T>, u32>,
    pub unified: u64,
    pub joins: Vec<Join>,
    /** for a join's root and for maxima of them: the joins' roots it is the maximum of */ fam: FxMap<u32, Rc<Vec<u32>>>,
    maxroots: FxMap<Rc<Vec<u32>>, u32>,
    maxtabs: FxMap<T, K>,
    joinf: FxMap<u32, Vec<u32>>,
    joinp: FxMap<u32, u32>,
    joinsup: FxSet<u128>,
    boolmemo: FxMap<T, Option<(u32, bool)>>,
    boolids: FxMap<(u128, Vec<u64>), u32>,
    pub tru: T,
    pub fls: T,
}

pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 { return v as i128; }
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

pub fn fold(op: Op, w: u16, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        Add => a.wrapping_add(b),
        Sub => a.wrapping_sub(b),
        Mul => a.wrapping_mul(b),
        UDiv => if b == 0 { m } else { a / b },
        URem => if b == 0 { a } else { a % b },
        SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 } }
        SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        Shl => if b >= w as u128 { 0 } else { a << b },
        LShr => if b >= w as u128 { 0 } else { a >> b },
        AShr => { let x = sx(a, w); if b >= w as u128 { (if x < 0 { -1i128 } else { 0 }) as u128 } else { (x >> b) as u128 } }
        And => a & b,
        Or => a | b,
        Xor => a ^ b,
        Eq => return (a == b) as u128,
        Ult => return (a < b) as u128,
        Ule => return (a <= b) as u128,
        Slt => return (sx(a, w) < sx(b, w)) as u128,
        Sle => return (sx(a, w) <= sx(b, w)) as u128,
    };
    r & m
}
fn is_cmp(op: Op) -> bool { matches!(op, Eq | Ult | Ule | Slt | Sle) }

impl Terms {
    pub fn new() -> Self {
        let mut s = Terms { n: vec![], m: vec![], map: Default::default(), arrs: vec![], arrmap: Default::default(), roots: vec![], vars: vec![], epoch: 0, vsmemo: Default::default(), alias: Default::default(), guardsets: Default::default(), joins: vec![], fam: Default::default(), maxroots: Default::default(), maxtabs: Default::default(), joinf: Default::default(), joinp: Default::default(), joinsup: Default::default(), boolmemo: Default::default(), boolids: Default::default(), unified: 0, tru: 0, fls: 0 };
        s.fls = s.c(0, 1);
        s.tru = s.c(1, 1);
        s
    }
    pub fn w(&self, t: T) -> u16 { self.n[t as usize].w }
    pub fn k(&self, t: T) -> &K { &self.n[t as usize].k }
    pub fn cv(&self, t: T) -> Option<u128> { if let K::Const(v) = self.n[t as usize].k { Some(v) } else { None } }
    pub fn root(&self, t: T) -> u32 { self.m[t as usize].root }

    fn intern(&mut self, k: K, w: u16) -> T {
        let node = Node { k, w };
        if let Some(&t) = self.map.get(&node) { return t; }
        let t = self.n.len() as T;
        let (lo, hi) = self.range(&node);
        let root = if let K::Tab(r, _) = node.k { r } else { NOROOT };
        let (shape, sup) = self.shape(&node);
        self.m.push(Meta { root, epoch: self.epoch, normed: t, lo, hi, shape, sup });
        self.map.insert(node.clone(), t);
        self.n.push(node);
        t
    }
    /// Structure up to the names of the inputs, and the inputs occurring (all ones if there are too many to tell).
    fn shape(&self, n: &Node) -> (u64, u128) {
        let mut h = Fx::default();
        h.write_u16(n.w);
        let m = |t: &T| &self.m[*t as usize];
        let mut sup = 0;
        let mut comm = None;
        let kids: Vec<T> = match &n.k {
            K::Const(v) => { h.write_u8(1); h.write_u128(*v); vec![] }
            K::Var(i) => { let v = &self.vars[*i as usize]; h.write_u8(2); h.write_u64(v.lo); h.write_u64(v.hi); sup = if *i < 127 { 1 << *i } else { u128::MAX }; vec![] }
            K::Tab(r, a) => { h.write_u8(3); h.write_u32(*a); vec![self.roots[*r as usize].term] }
            K::Bin(op, a, b) => { h.write_u8(4); h.write_u8(*op as u8); if matches!(op, Add | Mul | And | Or | Xor | Eq) { comm = Some(m(a).shape.wrapping_add(m(b).shape)); } vec![*a, *b] }
            K::Ite(a, b, c) => { h.write_u8(5); vec![*a, *b, *c] }
            K::Ext(x, y, a) => { h.write_u8(6); h.write_u16(*x); h.write_u16(*y); vec![*a] }
            K::Cat(a, b) => { h.write_u8(7); vec![*a, *b] }
            K::ZExt(a) => { h.write_u8(8); vec![*a] }
            K::SExt(a) => { h.write_u8(9); vec![*a] }
        };
        for k in &kids { sup |= m(k).sup; if comm.is_none() { h.write_u64(m(k).shape); } }
        if let Some(c) = comm { h.write_u64(c); }
        (h.finish(), sup)
    }
    /// An order of terms that is the same for terms that differ only by an order-preserving renaming of inputs.
    pub fn order(&self, a: T, b: T) -> std::cmp::Ordering {
        use std::cmp::Ordering::*;
        if a == b { return Equal; }
        let (x, y) = (&self.m[a as usize], &self.m[b as usize]);
        match x.shape.cmp(&y.shape) { Equal => {}, o => return o }
        let d = x.sup ^ y.sup;
        if d != 0 { return if x.sup >> d.trailing_zeros() & 1 == 1 { Less } else { Greater }; }
        a.cmp(&b)
    }
    fn range(&self, n: &Node) -> (u128, u128) {
        let full = (0, mask(n.w));
        let r = |t: &T| (self.m[*t as usize].lo, self.m[*t as usize].hi);
        match &n.k {
            K::Const(v) => (*v, *v),
            K::Var(i) => (self.vars[*i as usize].lo as u128, self.vars[*i as usize].hi as u128),
            K::Tab(_, a) => { let v = &self.arrs[*a as usize]; (*v.iter().min().unwrap() as u128, *v.iter().max().unwrap() as u128) }
            K::Ite(_, a, b) => { let (x, y) = (r(a), r(b)); (x.0.min(y.0), x.1.max(y.1)) }
            K::ZExt(a) => r(a),
            K::SExt(a) => { let x = r(a); let wa = self.w(*a); if x.1 <= mask(wa - 1) { x } else { full } }
            K::Ext(hi, lo, a) => { let x = r(a); if *lo == 0 && x.1 <= mask(*hi + 1) { x } else { full } }
            K::Cat(a, b) => { let (x, y) = (r(a), r(b)); let wb = self.w(*b); ((x.0 << wb) | y.0, (x.1 << wb) | y.1) }
            K::Bin(op, a, b) => {
                let (x, y) = (r(a), r(b));
                if n.w >= 128 { return full; }
                match op {
                    Add => { let h = x.1 + y.1; if h <= mask(n.w) { (x.0 + y.0, h) } else if x.0 + y.0 > mask(n.w) { ((x.0 + y.0) & mask(n.w), h & mask(n.w)) } else { full } }
                    Sub => if x.0 >= y.1 { (x.0 - y.1, x.1 - y.0) } else { full },
                    Mul => match x.1.checked_mul(y.1) { Some(h) if h <= mask(n.w) => (x.0 * y.0, h), _ => full },
                    And => (0, x.1.min(y.1)),
                    Or => { let h = x.1 | y.1; let bits = 128 - h.leading_zeros() as u16; (x.0.max(y.0), mask(bits.min(n.w))) }
                    Xor => { let h = x.1 | y.1; let bits = 128 - h.leading_zeros() as u16; (0, mask(bits.min(n.w))) }
                    LShr => if y.0 == y.1 && y.0 < 128 { (x.0 >> y.0, x.1 >> y.0) } else { (0, x.1) },
                    Shl => if y.0 == y.1 && y.0 < n.w as u128 && x.1 <= (mask(n.w) >> y.0) { (x.0 << y.0, x.1 << y.0) } else { full },
                    UDiv => if y.0 > 0 { (x.0 / y.1, x.1 / y.0) } else { full },
                    URem => if y.0 > 0 { (0, x.1.min(y.1 - 1)) } else { full },
                    Eq | Ult | Ule | Slt | Sle => (0, 1),
                    _ => full,
                }
            }
        }
    }
    pub fn c(&mut self, v: u128, w: u16) -> T { self.intern(K::Const(v & mask(w)), w) }

    pub fn arr(&mut self, v: Vec<u64>) -> u32 {
        let v = Rc::new(v);
        if let Some(&i) = self.arrmap.get(&v) { return i; }
        let i = self.arrs.len() as u32;
        self.arrs.push(v.clone());
        self.arrmap.insert(v, i);
        i
    }

    /// A fresh (or, for a repeated id and range, the same) input variable.
    pub fn var(&mut self, id: u32, w: u16, lo: u64, hi: u64) -> T {
        for v in &self.vars {
            if v.id == id { assert!(v.lo == lo && v.hi == hi && v.w == w, "input {} redeclared", id); return v.term; }
        }
        let idx = self.vars.len() as u32;
        self.vars.push(VarInfo { id, w, lo, hi, term: 0 });
        if lo == hi { let t = self.c(lo as u128, w); self.vars[idx as usize].term = t; return t; }
        let t = self.intern(K::Var(idx), w);
        self.vars[idx as usize].term = t;
        if (hi - lo) < 4096 {
            let r = self.roots.len() as u32;
            self.roots.push(Root { term: t, keys: Rc::new((lo..=hi).collect()), kind: RootKind::Var, dead: None });
            self.m[t as usize].root = r;
        }
        t
    }

    pub fn vals(&self, t: T) -> Rc<Vec<u64>> {
        match self.k(t) {
            K::Tab(_, a) => self.arrs[*a as usize].clone(),
            _ => self.roots[self.root(t) as usize].keys.clone(),
        }
    }
    pub fn tab(&mut self, root: u32, mut v: Vec<u64>, w: u16) -> T {
        let dead = self.roots[root as usize].dead.clone();
        // entries for impossible values are immaterial: they get one fixed form
        if let Some((d, l)) = &dead { let x = v[*l]; for i in 0..v.len() { if d[i] { v[i] = x; } } }
        if v.iter().all(|x| *x == v[0]) { return self.c(v[0] as u128, w); }
        let rt = self.roots[root as usize].term;
        let keys = self.roots[root as usize].keys.clone();
        if self.w(rt) == w && keys.iter().zip(&v).enumerate().all(|(i, (a, b))| a == b || dead.as_ref().map_or(false, |d| d.0[i])) { return rt; }
        // affine in a wider/narrower root: keep as table (cheap, canonical)
        if let RootKind::Max(c) = self.roots[root as usize].kind {
            let K::Ite(_, x, y) = *self.k(rt) else { unreachable!() };
            let (x, y) = (self.tab(self.root(x), v.clone(), w), self.tab(self.root(y), v.clone(), w));
            // a threshold of a maximum: one of the parts reaches it
            let mut live = v.iter().enumerate().filter(|(i, _)| dead.as_ref().map_or(true, |d| !d.0[*i])).map(|x| *x.1);
            let first = live.next().unwrap_or(0);
            let form = if w == 1 && live.scan(first, |l, x| { let c = x != *l; *l = x; Some(c) }).filter(|c| *c).count() == 1 {
                if first == 0 { K::Bin(Or, x, y) } else { K::Bin(And, x, y) }
            } else { K::Ite(c, x, y) };
            let a = self.arr(v);
            let t = self.intern(K::Tab(root, a), w);
            self.maxtabs.insert(t, form);
            return t;
        }
        let a = self.arr(v);
        self.intern(K::Tab(root, a), w)
    }
    /// The node, with functions of a maximum written as a choice between functions of its parts.
    pub fn form(&self, t: T) -> K {
        match self.maxtabs.get(&t) { Some(k) => k.clone(), None => self.k(t).clone() }
    }
    /// Is `t` a strictly monotone function of a root of a family? Then the root, and whether it increases.
    fn rank_of(&self, t: T) -> Option<(u32, bool)> {
        let r = self.root(t);
        if r == NOROOT || !self.fam.contains_key(&r) { return None; }
        let v = self.vals(t);
        let d = &self.roots[r as usize].dead;
        let mut last = None;
        let mut up = None;
        for (i, x) in v.iter().enumerate() {
            if d.as_ref().map_or(false, |d| d.0[i]) { continue; }
            if let Some(l) = last { if l == *x { return None; } let u = l < *x; if up.map_or(false, |o| o != u) { return None; } up = Some(u); }
            last = Some(*x);
        }
        Some((r, up?))
    }
    /// For a comparison between members of a family: the members p, q with `t` being p < q.
    fn max_cond(&self, t: T) -> Option<(u32, u32)> {
        let K::Bin(Ult, x, y) = *self.k(t) else { return None };
        let ((rx, ux), (ry, uy)) = (self.rank_of(x)?, self.rank_of(y)?);
        if ux != uy || self.vals(x) != self.vals(y) || !self.same_family(rx, ry) { return None; }
        Some(if ux { (rx, ry) } else { (ry, rx) })
    }
    fn same_family(&self, p: u32, q: u32) -> bool {
        let (p, q) = (&self.roots[p as usize], &self.roots[q as usize]);
        p.keys == q.keys && p.dead.as_ref().map(|d| d.0.clone()) == q.dead.as_ref().map(|d| d.0.clone())
    }
    /// The choice of the larger of two members of a family.
    fn max_ite(&mut self, c: T, a: T, b: T) -> Option<T> {
        if self.fam.is_empty() || !self.fam.contains_key(&self.root(a)) || !self.fam.contains_key(&self.root(b)) { return None; }
        let (p, q) = self.max_cond(c)?;
        if self.root(a) != q || self.root(b) != p || self.vals(a) != self.vals(b) { return None; }
        let mut s: Vec<u32> = self.fam[&p].iter().chain(self.fam[&q].iter()).copied().collect();
        s.sort_by(|x, y| self.order(self.roots[*x as usize].term, self.roots[*y as usize].term));
        s.dedup();
        let s = Rc::new(s);
        let (w, v) = (self.w(a), self.vals(a).as_ref().clone());
        let r = match self.maxroots.get(&s) {
            Some(r) => *r,
            None => {
                let (x, y) = (self.roots[q as usize].term, self.roots[p as usize].term);
                let t = self.intern(K::Ite(c, x, y), self.w(x));
                let r = self.roots.len() as u32;
                let (keys, dead) = (self.roots[p as usize].keys.clone(), self.roots[p as usize].dead.clone());
                self.roots.push(Root { term: t, keys, kind: RootKind::Max(c), dead });
                self.m[t as usize].root = r;
                self.vsmemo.remove(&t);
                self.fam.insert(r, s.clone());
                self.maxroots.insert(s, r);
                r
            }
        };
        Some(self.tab(r, v, w))
    }
    /// Apply a function pointwise to a rooted or constant term.
    pub fn map1(&mut self, t: T, w: u16, f: impl Fn(u64) -> u64) -> Option<T> {
        let t = self.norm(t);
        if self.w(t) > 64 { return None; }
        if let Some(v) = self.cv(t) { return Some(self.c(f(v as u64) as u128, w)); }
        let r = self.root(t);
        if r == NOROOT { return None; }
        let v = self.vals(t).iter().map(|x| f(*x)).collect();
        Some(self.tab(r, v, w))
    }
    /// Boolean table over a root.
    pub fn btab(&mut self, root: u32, f: impl Fn(usize) -> bool) -> T {
        let n = self.roots[root as usize].keys.len();
        let v = (0..n).map(|i| f(i) as u64).collect();
        self.tab(root, v, 1)
    }

    pub fn norm(&mut self, t: T) -> T {
        let m = self.m[t as usize];
        if m.epoch == self.epoch { return m.normed; }
        let r = if m.root != NOROOT { t } else {
            let w = self.w(t);
            match self.n[t as usize].k.clone() {
                K::Const(_) | K::Var(_) | K::Tab(..) => t,
                K::Bin(op, a, b) => { let (a, b) = (self.norm(a), self.norm(b)); self.bin(op, a, b) }
                K::Ite(c, a, b) => { let (c, a, b) = (self.norm(c), self.norm(a), self.norm(b)); self.ite(c, a, b) }
                K::Ext(h, l, a) => { let a = self.norm(a); self.ext(h, l, a) }
                K::Cat(a, b) => { let (a, b) = (self.norm(a), self.norm(b)); self.cat(a, b) }
                K::ZExt(a) => { let a = self.norm(a); self.zext(a, w) }
                K::SExt(a) => { let a = self.norm(a); self.sext(a, w) }
            }
        };
        let r = self.alias.get(&r).copied().unwrap_or(r);
        let e = self.epoch;
        let mm = &mut self.m[t as usize];
        mm.epoch = e;
        mm.normed = r;
        r
    }

    fn tabbable(&self, a: T, b: T) -> u32 {
        let (ra, rb) = (self.root(a), self.root(b));
        if ra != NOROOT && rb == ra { ra }
        else if ra != NOROOT && self.cv(b).is_some() { ra }
        else if rb != NOROOT && self.cv(a).is_some() { rb }
        else { NOROOT }
    }
    fn liftable(&self, t: T) -> bool { self.cv(t).is_some() || self.root(t) != NOROOT }

    pub fn not(&mut self, a: T) -> T { let t = self.tru; self.bin(Xor, a, t) }
    pub fn and(&mut self, a: T, b: T) -> T { self.bin(And, a, b) }
    pub fn or(&mut self, a: T, b: T) -> T { self.bin(Or, a, b) }
    pub fn eqc(&mut self, a: T, v: u128) -> T { let w = self.w(a); let c = self.c(v, w); self.bin(Eq, a, c) }

    pub fn bin(&mut self, op: Op, a: T, b: T) -> T {
        let (mut a, mut b) = (self.norm(a), self.norm(b));
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let rw = if is_cmp(op) { 1 } else { w };
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.c(fold(op, w, x, y), rw); }
        if w <= 64 {
            let r = self.tabbable(a, b);
            if r != NOROOT {
                let v: Vec<u64> = match (self.cv(a), self.cv(b)) {
                    (_, Some(y)) => self.vals(a).iter().map(|x| fold(op, w, *x as u128, y) as u64).collect(),
                    (Some(x), _) => self.vals(b).iter().map(|y| fold(op, w, x, *y as u128) as u64).collect(),
                    _ => { let (va, vb) = (self.vals(a), self.vals(b)); va.iter().zip(vb.iter()).map(|(x, y)| fold(op, w, *x as u128, *y as u128) as u64).collect() }
                };
                return self.tab(r, v, rw);
            }
        }
        if w == 1 && !self.joins.is_empty() && self.cv(a).is_none() && self.cv(b).is_none() {
            for (x, y) in [(a, b), (b, a)] {
                if matches!(op, And | Or) {
                    let k = if op == And { self.fls } else { self.tru };
                    if let Some(t) = if op == And { self.join_ite(x, y, k) } else { self.join_ite(x, k, y) } { return t; }
                } else if matches!(op, Xor | Eq) {
                    if let Some(c) = self.join_cond(x, self.root(y)) { return self.bin(op, c, y); }
                }
            }
        }
        if matches!(op, Add | Mul | And | Or | Xor | Eq) {
            if self.cv(a).is_some() || (self.cv(b).is_none() && self.order(a, b).is_gt()) { std::mem::swap(&mut a, &mut b); }
        }
        // bits one side of a conjunction cannot have are immaterial in the other
        if op == And && w > 1 && self.cv(a).is_none() && self.cv(b).is_none() {
            for k in 0..2 {
                let m = self.maybits(a, 6);
                if m != mask(w) && self.root(b) == NOROOT {
                    let c = self.c(m, w);
                    let x = self.bin(And, b, c);
                    if self.support(x) != self.support(b) { return if k == 0 { self.bin(And, a, x) } else { self.bin(And, x, a) }; }
                }
                std::mem::swap(&mut a, &mut b);
            }
        }
        // canonical order for chains of an associative and commutative operator
        if w > 1 && matches!(op, Add | Mul | And | Or | Xor) {
            let chain = |s: &Self, t: T| s.root(t) == NOROOT && matches!(*s.k(t), K::Bin(o, ..) if o == op);
            if chain(self, a) || chain(self, b) {
                let mut leaves = vec![];
                let mut st = vec![a, b];
                while let Some(x) = st.pop() {
                    if chain(self, x) { if let K::Bin(_, p, q) = *self.k(x) { st.push(p); st.push(q); } } else { leaves.push(x); }
                    if leaves.len() + st.len() > 24 { break; }
                }
                if leaves.len() + st.len() <= 24 {
                    // constants last, then by root and age
                    leaves.sort_by(|x, y| {
                        let o = (self.cv(*x).is_some(), self.root(*x) == NOROOT).cmp(&(self.cv(*y).is_some(), self.root(*y) == NOROOT));
                        let rt = |t: T| if self.root(t) != NOROOT { self.roots[self.root(t) as usize].term } else { t };
                        o.then(self.order(rt(*x), rt(*y))).then(self.order(*x, *y))
                    });
                    let mut out: Vec<T> = vec![];
                    for l in leaves {
                        match out.last() {
                            Some(&p) if self.tabbable(p, l) != NOROOT || (self.cv(p).is_some() && self.cv(l).is_some()) => { out.pop(); let z = self.bin(op, p, l); out.push(z); }
                            _ => out.push(l),
                        }
                    }
                    let mut acc = out[0];
                    for (i, &x) in out[1..].iter().enumerate() { acc = if i + 2 == out.len() { return self.bin_raw(op, acc, x, w); } else { self.bin_raw(op, acc, x, w) }; }
                    return acc;
                }
            }
        }
        self.bin_raw(op, a, b, rw)
    }
    fn bin_raw(&mut self, op: Op, a: T, b: T, rw: u16) -> T {
        let (mut a, mut b) = (a, b);
        let w = self.w(a);
        if self.cv(a).is_some() && self.cv(b).is_some() { let (x, y) = (self.cv(a).unwrap(), self.cv(b).unwrap()); return self.c(fold(op, w, x, y), rw); }
        if matches!(op, Add | Mul | And | Or | Xor | Eq) && self.cv(a).is_some() { std::mem::swap(&mut a, &mut b); }
        let m = mask(w);
        let (ra, rb) = ((self.m[a as usize].lo, self.m[a as usize].hi), (self.m[b as usize].lo, self.m[b as usize].hi));
        // range-based decisions
        match op {
            Eq => { if a == b { return self.tru; } if ra.1 < rb.0 || rb.1 < ra.0 { return self.fls; } }
            Ult => { if a == b { return self.fls; } if ra.1 < rb.0 { return self.tru; } if ra.0 >= rb.1 { return self.fls; } }
            Ule => { if a == b { return self.tru; } if ra.1 <= rb.0 { return self.tru; } if ra.0 > rb.1 { return self.fls; } }
            Slt | Sle => {
                if a == b { return if op == Sle { self.tru } else { self.fls }; }
                if w > 1 && ra.1 <= m >> 1 && rb.1 <= m >> 1 { return self.bin(if op == Slt { Ult } else { Ule }, a, b); }
            }
            _ => {}
        }
        if let Some(y) = self.cv(b) {
            match op {
                Add => {
                    if y == 0 { return a; }
                    if let K::Bin(Add, x, c1) = *self.k(a) { if let Some(c1) = self.cv(c1) { let c = self.c(c1.wrapping_add(y), w); return self.bin(Add, x, c); } }
                }
                Sub => { if y == 0 { return a; } let c = self.c((!y).wrapping_add(1), w); return self.bin(Add, a, c); }
                Mul => { if y == 0 { return b; } if y == 1 { return a; } }
                And => {
                    if y == 0 { return b; }
                    if y == m { return a; }
                    // all bits the operand can have are kept
                    if (y.wrapping_add(1) & y) == 0 && ra.1 <= y { return a; }
                    if let K::Bin(And, x, c1) = *self.k(a) { if let Some(c1) = self.cv(c1) { let c = self.c(c1 & y, w); return self.bin(And, x, c); } }
                }
                Or => { if y == 0 { return a; } if y == m { return b; } }
                Xor => {
                    if y == 0 { return a; }
                    if let K::Bin(Xor, x, c1) = *self.k(a) { if let Some(c1) = self.cv(c1) { let c = self.c(c1 ^ y, w); return self.bin(Xor, x, c); } }
                    if w == 1 { if let K::Bin(o2, p, q) = *self.k(a) {
                        match o2 { Ult => return self.bin(Ule, q, p), Ule => return self.bin(Ult, q, p), Slt => return self.bin(Sle, q, p), Sle => return self.bin(Slt, q, p), _ => {} }
                    } }
                }
                Shl | LShr | AShr => { if y == 0 { return a; } if y >= w as u128 && op != AShr { return self.c(0, w); } }
                UDiv => { if y == 1 { return a; } if y.is_power_of_two() { let c = self.c(y.trailing_zeros() as u128, w); return self.bin(LShr, a, c); } }
                URem => { if y.is_power_of_two() { let c = self.c(y - 1, w); return self.bin(And, a, c); } if ra.1 < y { return a; } }
                Eq => {
                    if w == 1 { return if y == 1 { a } else { self.not(a) }; }
                    match *self.k(a) {
                        K::Bin(Add, x, c1) => if let Some(c1) = self.cv(c1) { let c = self.c(y.wrapping_sub(c1), w); return self.bin(Eq, x, c); },
                        K::Bin(And, p, q) if y == 0 => { let mut left = 200; if let Some(r) = self.disjoint(p, q, &mut left) { return r; } }
                        K::Bin(Xor, x, c1) => if let Some(c1) = self.cv(c1) { let c = self.c(y ^ c1, w); return self.bin(Eq, x, c); },
                        K::ZExt(x) => { let wx = self.w(x); if y > mask(wx) { return self.fls; } let c = self.c(y, wx); return self.bin(Eq, x, c); }
                        K::Cat(h, l) => { let (wh, wl) = (self.w(h), self.w(l)); let (ch, cl) = (self.c(y >> wl, wh), self.c(y, wl)); let e1 = self.bin(Eq, h, ch); let e2 = self.bin(Eq, l, cl); return self.and(e1, e2); }
                        _ => {}
                    }
                }
                Ult => {
                    if y == 0 { return self.fls; }
                    if y == 1 { let z = self.c(0, w); return self.bin(Eq, a, z); }
                    if let K::ZExt(x) = *self.k(a) { let wx = self.w(x); if y <= mask(wx) { let c = self.c(y, wx); return self.bin(Ult, x, c); } }
                }
                Ule => { let c = self.c(y + 1, w); return self.bin(Ult, a, c); }
                _ => {}
            }
        }
        if let Some(x) = self.cv(a) {
            match op {
                Sub if x == 0 => {}
                Shl | LShr | AShr if x == 0 => return a,
                Ult => {
                    if x == 0 { let z = self.c(0, w); let e = self.bin(Eq, b, z); return self.not(e); }
                    if let K::ZExt(q) = *self.k(b) { let wx = self.w(q); if x <= mask(wx) { let c = self.c(x, wx); return self.bin(Ult, c, q); } }
                }
                _ => {}
            }
        }
        if w == 1 {
            match op {
                Eq => { let x = self.bin(Xor, a, b); return self.not(x); }
                Ult => { let na = self.not(a); return self.and(na, b); }
                Ule => { let na = self.not(a); return self.or(na, b); }
                Slt => { let nb = self.not(b); return self.and(a, nb); }
                Sle => { let nb = self.not(b); return self.or(a, nb); }
                Add | Sub => return self.bin(Xor, a, b),
                Mul => return self.and(a, b),
                _ => {}
            }
        }
        match op {
            And | Or if a == b => return a,
            Xor | Sub if a == b => return self.c(0, w),
            And | Or if w == 1 => {
                if self.is_neg(a, b) { return if op == And { self.fls } else { self.tru }; }
                // absorption with one level of same/dual operator
                for (x, y) in [(a, b), (b, a)] {
                    if let K::Bin(o2, p, q) = *self.k(x) {
                        if o2 == op { if p == y || q == y { return x; } if self.is_neg(p, y) || self.is_neg(q, y) { return if op == And { self.fls } else { self.tru }; } }
                        else if (o2 == And || o2 == Or) && self.w(p) == 1 {
                            if p == y || q == y { return y; }
                            // (p op2 q) op y with y = !p  ->  q op y
                            if self.is_neg(p, y) { return self.bin(op, q, y); }
                            if self.is_neg(q, y) { return self.bin(op, p, y); }
                        }
                    }
                    // combine root tables inside same operator
                    if let K::Bin(o2, p, q) = *self.k(x) {
                        if o2 == op && self.root(y) != NOROOT {
                            if self.root(p) == self.root(y) { let pp = self.bin(op, p, y); return self.bin(op, pp, q); }
                            if self.root(q) == self.root(y) { let qq = self.bin(op, q, y); return self.bin(op, p, qq); }
                        }
                    }
                }
            }
            _ => {}
        }
        if matches!(op, Eq | Ult | Ule) && w > 1 && w <= 64 && self.root(a) != NOROOT && self.root(b) != NOROOT {
            if let Some(t) = self.cross_cmp(op, a, b) { return t; }
        }
        // push masks and shifts by constants into bitwise operations
        if self.cv(b).is_some() && matches!(op, And | LShr | Shl) {
            if let K::Bin(o2 @ (Or | Xor), x, y) = *self.k(a) { if w > 1 { let p = self.bin(op, x, b); let q = self.bin(op, y, b); return self.bin(o2, p, q); } }
            if let K::Bin(And, x, y) = *self.k(a) { if op != And && w > 1 { let p = self.bin(op, x, b); let q = self.bin(op, y, b); return self.bin(And, p, q); } }
        }
        // lift over ite with simple leaves
        if self.cv(b).is_some() {
            if let K::Ite(c, x, y) = *self.k(a) {
                if self.liftable(x) || self.liftable(y) { let p = self.bin(op, x, b); let q = self.bin(op, y, b); return self.ite(c, p, q); }
            }
        }
        if self.cv(a).is_some() {
            if let K::Ite(c, x, y) = *self.k(b) {
                if self.liftable(x) || self.liftable(y) { let p = self.bin(op, a, x); let q = self.bin(op, a, y); return self.ite(c, p, q); }
            }
        }
        if let (K::Ite(c, x, y), K::Ite(c2, x2, y2)) = (self.k(a).clone(), self.k(b).clone()) {
            if c == c2 && w > 1 { let p = self.bin(op, x, x2); let q = self.bin(op, y, y2); return self.ite(c, p, q); }
        }
        // zero-extended operands: narrow comparisons
        if matches!(op, Eq | Ult | Ule) {
            if let (K::ZExt(x), K::ZExt(y)) = (self.k(a).clone(), self.k(b).clone()) {
                if self.w(x) == self.w(y) { return self.bin(op, x, y); }
            }
        }
        self.intern(K::Bin(op, a, b), rw)
    }
    /// Bits that can be set, as far as that is easily seen.
    /// The bit position if `t` always has exactly one bit set: a shifted one, or a root's values that are powers of two (given as the value).
    fn onehot(&self, t: T) -> Option<(bool, T)> {
        if let Some(v) = self.cv(t) { return if v.count_ones() == 1 { Some((false, t)) } else { None }; }
        if self.root(t) != NOROOT { return if self.w(t) <= 64 && self.vals(t).iter().all(|v| v.count_ones() == 1) { Some((false, t)) } else { None }; }
        if let K::Bin(Shl, a, i) = *self.k(t) { if self.cv(a) == Some(1) && (self.m[i as usize].hi as u128) < self.w(t) as u128 { return Some((true, i)); } }
        None
    }
    /// p & q == 0 for unions of single bits.
    fn disjoint(&mut self, p: T, q: T, left: &mut u32) -> Option<T> {
        if *left == 0 { return None; }
        *left -= 1;
        for (x, y) in [(p, q), (q, p)] {
            if self.root(x) == NOROOT && self.onehot(x).is_none() {
                if let K::Bin(Or, a, b) = *self.k(x) {
                    let u = self.disjoint(a, y, left)?;
                    let v = self.disjoint(b, y, left)?;
                    return Some(self.and(u, v));
                }
            }
        }
        let (fp, i) = self.onehot(p)?;
        let (fq, j) = self.onehot(q)?;
        let e = if p == q { self.tru } else if fp && fq { self.bin(Eq, i, j) } else { self.bin(Eq, p, q) };
        Some(self.not(e))
    }
    fn maybits(&self, t: T, d: u32) -> u128 {
        if let Some(v) = self.cv(t) { return v; }
        let w = self.w(t);
        let hi = self.m[t as usize].hi as u128;
        let by_range = if w > 64 { mask(w) } else { mask((128 - hi.leading_zeros()) as u16) & mask(w) };
        if self.root(t) != NOROOT { let v = self.vals(t); return if v.len() <= 64 { v.iter().fold(0, |x, y| x | *y as u128) } else { by_range }; }
        if d == 0 { return by_range; }
        by_range & match *self.k(t) {
            K::Bin(And, a, b) => self.maybits(a, d - 1) & self.maybits(b, d - 1),
            K::Bin(Or | Xor, a, b) | K::Ite(_, a, b) => self.maybits(a, d - 1) | self.maybits(b, d - 1),
            _ => mask(w),
        }
    }
    /// Number of the Boolean function `t` is of its inputs, up to negation; only for functions of the inputs of a join's condition.
    fn boolkey(&mut self, t: T) -> Option<(u32, bool)> {
        if self.w(t) != 1 || !self.joinsup.contains(&self.support(t)) { return None; }
        if let Some(r) = self.boolmemo.get(&t) { return *r; }
        let r = self.boolkey_of(t);
        self.boolmemo.insert(t, r);
        r
    }
    fn boolkey_of(&mut self, t: T) -> Option<(u32, bool)> {
        let sup = self.support(t);
        let vs: Vec<usize> = (0..127.min(self.vars.len())).filter(|i| sup >> i & 1 == 1).collect();
        let mut all = 1u64;
        for &v in &vs { all = all.saturating_mul(self.vars[v].hi - self.vars[v].lo + 1); }
        if all > 4096 || sup >> 127 & 1 == 1 { return None; }
        let mut m: Vec<u64> = self.vars.iter().map(|v| v.lo).collect();
        let mut bits = vec![0u64; (all as usize + 63) / 64];
        let mut i = 0usize;
        'all: loop {
            let mut cache = Default::default();
            if self.eval(t, &m, &mut cache) == 1 { bits[i / 64] |= 1 << (i % 64); }
            i += 1;
            for &v in &vs { m[v] += 1; if m[v] <= self.vars[v].hi { continue 'all; } m[v] = self.vars[v].lo; }
            break;
        }
        let neg = bits[0] & 1 == 1;
        if neg { for (k, b) in bits.iter_mut().enumerate() { *b = !*b; let left = all as usize - (k * 64).min(all as usize); if left < 64 { *b &= (1u64 << left) - 1; } } }
        let n = self.boolids.len() as u32;
        Some((*self.boolids.entry((sup, bits)).or_insert(n), neg))
    }
    /// Registers `t` = ite(f, function of one root, function of another) as a root of which functions of both sides are functions.
    /// `bad` are the values of t shown impossible.
    pub fn register_join(&mut self, t: T, bad: &FxSet<u64>) -> bool {
        let t = self.norm(t);
        let K::Ite(f, a, b) = *self.k(t) else { return false };
        let (ra, rb) = (self.root(a), self.root(b));
        if ra == NOROOT || rb == NOROOT || self.cv(a).is_some() || self.cv(b).is_some() { return false; }
        let (va, vb) = (self.vals(a), self.vals(b));
        if !self.register_root(t) || self.m[t as usize].root == NOROOT { return false; }
        let p = self.m[t as usize].root;
        let keys = self.roots[p as usize].keys.clone();
        let mut side: Vec<Option<(bool, u32)>> = vec![None; keys.len()];
        for (on, v, r) in [(true, va, ra), (false, vb, rb)] {
            let dead = self.roots[r as usize].dead.clone();
            for (i, x) in v.iter().enumerate() {
                if bad.contains(x) || dead.as_ref().map_or(false, |d| d.0[i]) { continue; }
                let Ok(k) = keys.binary_search(x) else { return false };
                if side[k].is_some() { return false; }
                side[k] = Some((on, i as u32));
            }
        }
        let d: Vec<bool> = side.iter().map(|x| x.is_none()).collect();
        let Some(l) = d.iter().position(|x| !x) else { return false };
        self.roots[p as usize].dead = Some((Rc::new(d), l));
        self.joinsup.insert(self.support(f));
        let Some((id, neg)) = self.boolkey(f) else { return false };
        let j = self.joins.len() as u32;
        self.joinf.entry(id).or_default().push(j);
        self.joinp.insert(p, j);
        self.fam.insert(p, Rc::new(vec![p]));
        self.joins.push(Join { f, fneg: neg, ra, rb, p, side });
        self.epoch += 1;
        true
    }
    /// ite(c, a, b) as a function of a join's root, if it is one.
    fn join_ite(&mut self, c: T, a: T, b: T) -> Option<T> {
        let w = self.w(a);
        if w > 64 { return None; }
        let cand: Vec<(u32, Option<bool>)> = match self.joinp.get(&self.root(c)) {
            Some(j) => vec![(*j, None)],
            None => { let (id, neg) = self.boolkey(c)?; self.joinf.get(&id)?.iter().map(|j| (*j, Some(neg != self.joins[*j as usize].fneg))).collect() }
        };
        'next: for (j, neg) in cand {
            let (p, ra, rb) = { let j = &self.joins[j as usize]; (j.p, j.ra, j.rb) };
            let kind = |s: &Self, t: T| -> Option<(u8, Rc<Vec<u64>>)> {
                if let Some(v) = s.cv(t) { return Some((0, Rc::new(vec![v as u64]))); }
                let r = s.root(t);
                if r == p { Some((1, s.vals(t))) } else if r == ra { Some((2, s.vals(t))) } else if r == rb { Some((3, s.vals(t))) } else { None }
            };
            let (Some(x), Some(y)) = (kind(self, a), kind(self, b)) else { continue };
            if neg.is_some() && x.0 == 0 && y.0 == 0 { continue; }
            let vc = if neg.is_none() { Some(self.vals(c)) } else { None };
            let side = &self.joins[j as usize].side;
            let mut v = Vec::with_capacity(side.len());
            for i in 0..side.len() {
                let Some((on, k)) = side[i] else { v.push(0); continue };
                let take = match &vc { Some(vc) => vc[i] == 1, None => on != neg.unwrap() };
                let z = if take { &x } else { &y };
                v.push(match z.0 { 0 => z.1[0], 1 => z.1[i], 2 if on => z.1[k as usize], 3 if !on => z.1[k as usize], _ => continue 'next });
            }
            return Some(self.tab(p, v, w));
        }
        None
    }
    /// A join's condition as a function of the join's root.
    fn join_cond(&mut self, c: T, p: u32) -> Option<T> {
        let j = *self.joinp.get(&p)?;
        let (id, neg) = self.boolkey(c)?;
        if !self.joinf.get(&id)?.contains(&j) { return None; }
        let neg = neg != self.joins[j as usize].fneg;
        let v = self.joins[j as usize].side.iter().map(|x| x.map_or(0, |y| (y.0 != neg) as u64)).collect();
        Some(self.tab(p, v, 1))
    }
    /// Comparison of tables over different roots, in a form that depends only on the relation it describes.
    fn cross_cmp(&mut self, op: Op, a: T, b: T) -> Option<T> {
        let (va, vb) = (self.vals(a), self.vals(b));
        let (ra, rb) = (self.root(a), self.root(b));
        let flip = self.order(self.roots[ra as usize].term, self.roots[rb as usize].term).is_gt();
        // both sides have the same values: their ranks, in the same direction for every comparison of the two
        let sorted = |v: &Rc<Vec<u64>>| { let mut x: Vec<u64> = v.iter().copied().collect(); x.sort_unstable(); x.dedup(); x };
        let (xs, ys) = (sorted(&va), sorted(&vb));
        if xs == ys && xs.len() > 2 {
            if op == Ule { let l = self.bin(Ult, b, a); if let Some(v) = self.cv(l) { return Some(self.c(1 - v, 1)); } let t = self.tru; return Some(self.intern(K::Bin(Xor, l, t), 1)); }
            let hi = xs.len() as u64 - 1;
            let bits = 64 - hi.leading_zeros() as u16;
            let up = |v: &Rc<Vec<u64>>| -> Vec<u64> { v.iter().map(|k| xs.binary_search(k).unwrap() as u64).collect() };
            let (na, nb) = (up(&va), up(&vb));
            let (fa, fb) = if flip { (&nb, &na) } else { (&na, &nb) };
            let down: Vec<u64> = fa.iter().map(|x| hi - x).collect();
            let inv = if *fa != down { *fa > down } else { let d: Vec<u64> = fb.iter().map(|x| hi - x).collect(); *fb > d };
            let dir = |v: Vec<u64>| -> Vec<u64> { if inv { v.into_iter().map(|x| hi - x).collect() } else { v } };
            let (x, y) = (self.tab(ra, dir(na), bits), self.tab(rb, dir(nb), bits));
            let (x, y) = if (op == Eq && flip) || (op == Ult && inv) { (y, x) } else { (x, y) };
            let t = self.intern(K::Bin(op, x, y), 1);
            if op == Ult { if let Some((p, q)) = self.max_cond(t) { if self.fam[&q].iter().all(|x| self.fam[&p].contains(x)) { return Some(self.fls); } } }
            return Some(t);
        }
        if op == Eq && flip { return self.cross_cmp(op, b, a); }
        if op == Eq {
            let sb: FxSet<u64> = vb.iter().copied().collect();
            let mut ids: FxMap<u64, u64> = Default::default();
            // values both sides can take, numbered by first occurrence; 0 and 1 never meet
            let mut na = vec![];
            for v in va.iter() { na.push(if sb.contains(v) { let n = ids.len() as u64 + 2; *ids.entry(*v).or_insert(n) } else { 0 }); }
            if ids.is_empty() { return Some(self.fls); }
            let nb: Vec<u64> = vb.iter().map(|v| ids.get(v).copied().unwrap_or(1)).collect();
            let bits = 64 - (ids.len() as u64 + 1).leading_zeros() as u16;
            if ids.len() == 1 {
                let x = self.tab(ra, na.iter().map(|v| (*v == 2) as u64).collect(), 1);
                let y = self.tab(rb, nb.iter().map(|v| (*v == 2) as u64).collect(), 1);
                return Some(self.and(x, y));
            }
            let (x, y) = (self.tab(ra, na, bits), self.tab(rb, nb, bits));
            if self.cv(x).is_some() || self.cv(y).is_some() { return Some(self.bin(Eq, x, y)); }
            return Some(self.intern(K::Bin(Eq, x, y), 1));
        }
        // a < b and a <= b as x < y over ranks with ties decided: 2*rank, plus one on the side that makes ties come out right
        let mut all: Vec<u64> = va.iter().chain(vb.iter()).copied().collect();
        all.sort_unstable();
        all.dedup();
        let strict = op == Ult;
        // position of each value; neighbouring values only one side uses are merged
        let (sa, sb): (FxSet<u64>, FxSet<u64>) = (va.iter().copied().collect(), vb.iter().copied().collect());
        let mut pa: FxMap<u64, u64> = Default::default();
        let mut pb: FxMap<u64, u64> = Default::default();
        // sweep: events in order; for `a < b` the b at a value comes before the a at it, for `a <= b` after
        let mut lvl = 0u64;
        let mut last = 0; // 1: a, 2: b
        for v in all {
            for side in if strict { [2, 1] } else { [1, 2] } {
                if side == 1 && sa.contains(&v) { if last == 2 { lvl += 1; } last = 1; pa.insert(v, lvl); }
                if side == 2 && sb.contains(&v) { if last == 1 { lvl += 1; } last = 2; pb.insert(v, lvl); }
            }
        }
        // the relation is pa < pb, and the two are never equal
        let bits = 64 - lvl.leading_zeros() as u16;
        let na: Vec<u64> = va.iter().map(|v| pa[v]).collect();
        let nb: Vec<u64> = vb.iter().map(|v| pb[v]).collect();
        let (x, y) = (self.tab(ra, na.clone(), bits), self.tab(rb, nb.clone(), bits));
        if bits == 1 || self.cv(x).is_some() || self.cv(y).is_some() { return Some(self.bin(Ult, x, y)); }
        // the mirrored relation: lvl - pb < lvl - pa
        let (x2, y2) = (self.tab(ra, na.iter().map(|v| lvl - v).collect(), bits), self.tab(rb, nb.iter().map(|v| lvl - v).collect(), bits));
        let less = |p: T, q: T| self.vals(p) <= self.vals(q);
        let (p, q, neg) = if !flip { if less(x, x2) { (x, y, false) } else { (x2, y2, true) } } else if less(y, y2) { (y, x, true) } else { (y2, x2, false) };
        let t = self.intern(K::Bin(Ult, p, q), 1);
        let tru = self.tru;
        Some(if neg { self.intern(K::Bin(Xor, t, tru), 1) } else { t })
    }
    fn is_neg(&self, a: T, b: T) -> bool {
        let f = |x: T, y: T| matches!(*self.k(x), K::Bin(Xor, p, q) if p == y && q == self.tru);
        if f(a, b) || f(b, a) { return true; }
        match (self.k(a), self.k(b)) {
            (K::Bin(Ult, p, q), K::Bin(Ule, r, s)) | (K::Bin(Ule, r, s), K::Bin(Ult, p, q)) => p == s && q == r,
            (K::Bin(Slt, p, q), K::Bin(Sle, r, s)) | (K::Bin(Sle, r, s), K::Bin(Slt, p, q)) => p == s && q == r,
            _ => false,
        }
    }

    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        let (c, a, b) = (self.norm(c), self.norm(a), self.norm(b));
        if let Some(v) = self.cv(c) { return if v == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let r = self.root(c);
        let ok = |s: &Self, t: T| s.cv(t).is_some() || s.root(t) == r;
        if r != NOROOT && w <= 64 && ok(self, a) && ok(self, b) {
            let vc = self.vals(c);
            let n = vc.len();
            let get = |s: &Self, t: T| -> Rc<Vec<u64>> { if let Some(v) = s.cv(t) { Rc::new(vec![v as u64; n]) } else { s.vals(t) } };
            let (va, vb) = (get(self, a), get(self, b));
            let v = (0..n).map(|i| if vc[i] == 1 { va[i] } else { vb[i] }).collect();
            return self.tab(r, v, w);
        }
        if let K::Bin(Xor, p, q) = *self.k(c) { if q == self.tru { return self.ite(p, b, a); } }
        if !self.joins.is_empty() {
            if let Some(t) = self.join_ite(c, a, b) { return t; }
            if let Some(t) = self.max_ite(c, a, b) { return t; }
        }
        if w == 1 {
            if a == self.tru { return self.or(c, b); }
            if b == self.fls { return self.and(c, a); }
            if a == self.fls { let n = self.not(c); return self.and(n, b); }
            if b == self.tru { let n = self.not(c); return self.or(n, a); }
            if c == a { return self.or(c, b); }
            if c == b { return self.and(c, a); }
        }
        if let K::Ite(c2, x, _) = *self.k(a) { if c2 == c { return self.ite(c, x, b); } }
        if let K::Ite(c2, _, y) = *self.k(b) { if c2 == c { return self.ite(c, a, y); } }
        // a common condition inside both sides goes outside
        if w > 1 { if let (K::Ite(d, x, y), K::Ite(d2, x2, y2)) = (self.k(a).clone(), self.k(b).clone()) {
            if d == d2 {
                let (ct, cf) = (self.cofactor(c, d, true), self.cofactor(c, d, false));
                if ct != c || cf != c { let p = self.ite(ct, x, x2); let q = self.ite(cf, y, y2); return self.ite(d, p, q); }
            }
        } }
        // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
        if let K::Ite(d, x, y) = *self.k(b) { if x == a { let o = self.or(c, d); return self.ite(o, a, y); } }
        if let K::Ite(d, x, y) = *self.k(a) {
            if y == b { let o = self.and(c, d); return self.ite(o, x, b); }
            if x == b { let nd = self.not(d); let o = self.and(c, nd); return self.ite(o, y, b); }
        }
        if let K::Ite(d, x, y) = *self.k(b) { if y == a { let nc = self.not(c); let o = self.and(nc, d); return self.ite(o, x, a); } }
        self.intern(K::Ite(c, a, b), w)
    }

    /// A term wider than a table entry as a function of one root.
    fn wide(&self, a: T, depth: u32) -> Option<(u32, Vec<u128>)> {
        if depth == 0 { return None; }
        if let Some(v) = self.cv(a) { return Some((NOROOT, vec![v])); }
        let w = self.w(a);
        let r = self.root(a);
        if r != NOROOT && w <= 64 { return Some((r, self.vals(a).iter().map(|x| *x as u128).collect())); }
        let two = |x: T, y: T, f: &dyn Fn(u128, u128) -> u128| {
            let ((p, u), (q, v)) = (self.wide(x, depth - 1)?, self.wide(y, depth - 1)?);
            if p != q && p != NOROOT && q != NOROOT { return None; }
            let n = u.len().max(v.len());
            Some((if p == NOROOT { q } else { p }, (0..n).map(|i| f(u[i % u.len()], v[i % v.len()]) & mask(w)).collect()))
        };
        match self.n[a as usize].k.clone() {
            K::ZExt(x) => self.wide(x, depth - 1),
            K::Cat(h, l) => { let wl = self.w(l); two(h, l, &|x, y| x << wl | y) }
            K::Bin(op @ (Add | Sub | Mul | And | Or | Xor | Shl | LShr), x, y) => two(x, y, &|x, y| fold(op, w, x, y)),
            _ => None,
        }
    }
    pub fn ext(&mut self, hi: u16, lo: u16, a: T) -> T {
        let a = self.norm(a);
        let wa = self.w(a);
        let w = hi - lo + 1;
        if w == wa { return a; }
        if let Some(v) = self.cv(a) { return self.c(v >> lo, w); }
        if self.root(a) != NOROOT && wa <= 64 {
            let r = self.root(a);
            let v = self.vals(a).iter().map(|x| (x >> lo) & mask(w) as u64).collect();
            return self.tab(r, v, w);
        }
        if wa > 64 && w <= 64 {
            if let Some((r, v)) = self.wide(a, 6) {
                if r != NOROOT { return self.tab(r, v.iter().map(|x| (x >> lo) as u64 & mask(w) as u64).collect(), w); }
            }
        }
        match self.k(a).clone() {
            K::Ext(_, l2, x) => self.ext(hi + l2, lo + l2, x),
            K::Cat(h, l) => {
                let wl = self.w(l);
                if lo >= wl { self.ext(hi - wl, lo - wl, h) }
                else if hi < wl { self.ext(hi, lo, l) }
                else { let x = self.ext(hi - wl, 0, h); let y = self.ext(wl - 1, lo, l); self.cat(x, y) }
            }
            K::ZExt(x) => {
                let wx = self.w(x);
                if hi < wx { self.ext(hi, lo, x) }
                else if lo >= wx { self.c(0, w) }
                else { let y = self.ext(wx - 1, lo, x); self.zext(y, w) }
            }
            K::SExt(x) if hi < self.w(x) => self.ext(hi, lo, x),
            K::Ite(c, x, y) => { let p = self.ext(hi, lo, x); let q = self.ext(hi, lo, y); self.ite(c, p, q) }
            K::Bin(op @ (And | Or | Xor), x, y) => { let p = self.ext(hi, lo, x); let q = self.ext(hi, lo, y); self.bin(op, p, q) }
            K::Bin(op @ (Add | Sub | Mul), x, y) if lo == 0 => { let p = self.ext(hi, 0, x); let q = self.ext(hi, 0, y); self.bin(op, p, q) }
            K::Bin(LShr, x, s) => {
                if let Some(s) = self.cv(s) { let s = s as u16; if hi + s < wa { return self.ext(hi + s, lo + s, x); } if lo + s >= wa { return self.c(0, w); } }
                self.intern(K::Ext(hi, lo, a), w)
            }
            K::Bin(Shl, x, s) => {
                if let Some(s) = self.cv(s) { let s = s as u16; if lo >= s { return self.ext(hi - s, lo - s, x); } if hi < s { return self.c(0, w); } }
                self.intern(K::Ext(hi, lo, a), w)
            }
            _ => self.intern(K::Ext(hi, lo, a), w),
        }
    }
    pub fn cat(&mut self, h: T, l: T) -> T {
        let (h, l) = (self.norm(h), self.norm(l));
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.cv(h), self.cv(l)) { return self.c((x << wl) | y, w); }
        if w <= 64 {
            let r = self.tabbable(h, l);
            if r != NOROOT {
                let n = self.roots[r as usize].keys.len();
                let get = |s: &Self, t: T| -> Rc<Vec<u64>> { if let Some(v) = s.cv(t) { Rc::new(vec![v as u64; n]) } else { s.vals(t) } };
                let (va, vb) = (get(self, h), get(self, l));
                let v = (0..n).map(|i| (va[i] << wl) | vb[i]).collect();
                return self.tab(r, v, w);
            }
        }
        if self.cv(h) == Some(0) { return self.zext(l, w); }
        if let (K::Ext(h1, l1, x), K::Ext(h2, l2, y)) = (self.k(h).clone(), self.k(l).clone()) {
            if x == y && l1 == h2 + 1 { return self.ext(h1, l2, x); }
        }
        if let (K::Ext(h1, l1, x), _) = (self.k(h).clone(), ()) {
            if l1 == wl && x != l { if let K::ZExt(_) = self.k(x) {} ; if self.w(l) == l1 { let lowx = self.ext(l1 - 1, 0, x); if lowx == l { return self.ext(h1, 0, x); } } }
        }
        if let K::Cat(m2, l2) = self.k(l).clone() {
            // cat(h, cat(m, l)): try to fuse h with m
            if let (K::Ext(h1, l1, x), K::Ext(h2, e2, y)) = (self.k(h).clone(), self.k(m2).clone()) {
                if x == y && l1 == h2 + 1 { let f = self.ext(h1, e2, x); return self.cat(f, l2); }
            }
        }
        if let (K::Ite(c1, x1, y1), K::Ite(c2, x2, y2)) = (self.k(h).clone(), self.k(l).clone()) {
            if c1 == c2 { let p = self.cat(x1, x2); let q = self.cat(y1, y2); return self.ite(c1, p, q); }
        }
        self.intern(K::Cat(h, l), w)
    }
    pub fn zext(&mut self, a: T, w: u16) -> T {
        let a = self.norm(a);
        let wa = self.w(a);
        if wa == w { return a; }
        if let Some(v) = self.cv(a) { return self.c(v, w); }
        if self.root(a) != NOROOT && w <= 64 { let r = self.root(a); let v = self.vals(a).to_vec(); return self.tab(r, v, w); }
        match *self.k(a) {
            K::ZExt(x) => return self.zext(x, w),
            K::Ite(c, x, y) if self.liftable(x) || self.liftable(y) => { let p = self.zext(x, w); let q = self.zext(y, w); return self.ite(c, p, q); }
            _ => {}
        }
        self.intern(K::ZExt(a), w)
    }
    pub fn sext(&mut self, a: T, w: u16) -> T {
        let a = self.norm(a);
        let wa = self.w(a);
        if wa == w { return a; }
        if let Some(v) = self.cv(a) { return self.c(sx(v, wa) as u128, w); }
        if self.root(a) != NOROOT && w <= 64 { let r = self.root(a); let v = self.vals(a).iter().map(|x| (sx(*x as u128, wa) as u128 & mask(w)) as u64).collect(); return self.tab(r, v, w); }
        if wa > 1 && self.m[a as usize].hi <= mask(wa - 1) { return self.zext(a, w); }
        if let K::Ite(c, x, y) = *self.k(a) { if self.liftable(x) || self.liftable(y) { let p = self.sext(x, w); let q = self.sext(y, w); return self.ite(c, p, q); } }
        self.intern(K::SExt(a), w)
    }

    // ----- finite value sets -----

    /// All values a term can take with the condition for each, if there are few.
    pub fn vs(&mut self, t: T) -> Option<Rc<Vec<(u64, T)>>> {
        let t = self.norm(t);
        if let Some(r) = self.vsmemo.get(&t) { return r.clone(); }
        let r = self.vs0(t).map(Rc::new);
        self.vsmemo.insert(t, r.clone());
        r
    }
    fn group(&mut self, items: impl Iterator<Item = (u64, T)>) -> Option<Vec<(u64, T)>> {
        let mut idx: FxMap<u64, Vec<T>> = Default::default();
        for (v, g) in items { idx.entry(v).or_default().push(g); if idx.len() > ROOT_LIMIT { return None; } }
        let mut out: Vec<(u64, Vec<T>)> = idx.into_iter().collect();
        out.sort_by_key(|x| x.0);
        let mut res = vec![];
        for (v, mut gs) in out {
            let mut seen: FxSet<T> = Default::default();
            gs.retain(|x| seen.insert(*x));
            let mut g = self.fls;
            for x in gs { g = self.or(g, x); }
            if g != self.fls { res.push((v, g)); }
        }
        Some(res)
    }
    fn vs0(&mut self, t: T) -> Option<Vec<(u64, T)>> {
        let w = self.w(t);
        if w > 64 { return None; }
        if let Some(v) = self.cv(t) { return Some(vec![(v as u64, self.tru)]); }
        if self.root(t) != NOROOT {
            let r = self.root(t);
            let vals = self.vals(t);
            let mut idx: FxMap<u64, Vec<usize>> = Default::default();
            for (i, v) in vals.iter().enumerate() { idx.entry(*v).or_default().push(i); }
            let mut ks: Vec<_> = idx.into_iter().collect();
            ks.sort_by_key(|x| x.0);
            let n = vals.len();
            let mut out = vec![];
            for (v, is) in ks {
                let mut b = vec![0u64; n];
                for i in is { b[i] = 1; }
                let g = self.tab(r, b, 1);
                out.push((v, g));
            }
            return Some(out);
        }
        if w == 1 { let n = self.not(t); return Some(vec![(0, n), (1, t)]); }
        match self.k(t).clone() {
            K::Ite(c, a, b) => {
                let va = self.vs(a)?;
                let vb = self.vs(b)?;
                if va.len() + vb.len() > 2 * ROOT_LIMIT || (va.len() + vb.len() > 1024 && self.support(t).count_ones() > 10) { return None; }
                let nc = self.not(c);
                let mut items = vec![];
                for (v, g) in va.iter() { items.push((*v, self.and(c, *g))); }
                for (v, g) in vb.iter() { items.push((*v, self.and(nc, *g))); }
                self.group(items.into_iter())
            }
            K::Bin(op, a, b) => {
                let va = self.vs(a)?;
                let vb = self.vs(b)?;
                if va.len() * vb.len() > CROSS_LIMIT { return None; }
                let wa = self.w(a);
                let mut items = vec![];
                for (x, g) in va.iter() { for (y, h) in vb.iter() {
                    let gg = self.and(*g, *h);
                    if gg != self.fls { items.push((fold(op, wa, *x as u128, *y as u128) as u64, gg)); }
                } }
                self.group(items.into_iter())
            }
            K::Cat(a, b) => {
                let va = self.vs(a)?;
                let vb = self.vs(b)?;
                if va.len() * vb.len() > CROSS_LIMIT { return None; }
                let wb = self.w(b);
                let mut items = vec![];
                for (x, g) in va.iter() { for (y, h) in vb.iter() { items.push(((x << wb) | y, self.and(*g, *h))); } }
                self.group(items.into_iter())
            }
            K::Ext(hi, lo, a) => { let va = self.vs(a)?; let m = mask(hi - lo + 1) as u64; self.group(va.iter().map(|(v, g)| ((v >> lo) & m, *g)).collect::<Vec<_>>().into_iter()) }
            K::ZExt(a) => Some(self.vs(a)?.to_vec()),
            K::SExt(a) => { let wa = self.w(a); Some(self.vs(a)?.iter().map(|(v, g)| ((sx(*v as u128, wa) as u128 & mask(w)) as u64, *g)).collect()) }
            _ => None,
        }
    }
    /// Register `t` as a finite-domain root. Returns false if it has no small domain.
    pub fn register_root(&mut self, t: T) -> bool {
        let t = self.norm(t);
        if self.root(t) != NOROOT { return true; }
        let (lo, hi) = (self.m[t as usize].lo, self.m[t as usize].hi);
        if let Some(vs) = self.vs(t) {
            // a partition of the input space that is already known: reuse its root
            let mut gs: Vec<T> = vs.iter().map(|x| x.1).collect();
            gs.sort();
            if let Some(&r) = self.guardsets.get(&gs) {
                if let RootKind::Guards(g) = &self.roots[r as usize].kind {
                    let by: FxMap<T, u64> = vs.iter().map(|x| (x.1, x.0)).collect();
                    let v: Vec<u64> = g.iter().map(|x| by[x]).collect();
                    let w = self.w(t);
                    let a = self.tab(r, v, w);
                    self.alias.insert(t, a);
                    self.unified += 1;
                    self.epoch += 1;
                    return true;
                }
            }
            if gs.len() <= ROOT_LIMIT { self.guardsets.insert(gs, self.roots.len() as u32); }
        }
        let root = if let Some(vs) = self.vs(t) {
            if vs.len() > ROOT_LIMIT { return false; }
            Root { term: t, keys: Rc::new(vs.iter().map(|x| x.0).collect()), kind: RootKind::Guards(vs.iter().map(|x| x.1).collect()), dead: None }
        } else if hi - lo < 1024 || (hi - lo < 24000 && matches!(self.k(t), K::Var(_))) {
            Root { term: t, keys: Rc::new((lo as u64..=hi as u64).collect()), kind: RootKind::Interval, dead: None }
        } else { return false; };
        let r = self.roots.len() as u32;
        self.roots.push(root);
        self.m[t as usize].root = r;
        self.vsmemo.remove(&t);
        self.epoch += 1;
        true
    }

    pub fn show(&self, t: T, d: u32) -> String {
        let m = &self.m[t as usize];
        let h = format!("t{}:{}", t, self.n[t as usize].w);
        if let Some(v) = self.cv(t) { return format!("{:#x}:{}", v, self.w(t)); }
        if let K::Tab(r, a) = self.k(t) { return format!("tab[r{} n={} a{}:{}..{}]", r, self.roots[*r as usize].keys.len(), a, self.arrs[*a as usize][0], self.arrs[*a as usize].last().unwrap()); }
        if m.root != NOROOT { return format!("root[r{} n={}]", m.root, self.roots[m.root as usize].keys.len()); }
        if d == 0 { return h; }
        match self.k(t) {
            K::Bin(op, a, b) => format!("({:?} {} {})", op, self.show(*a, d - 1), self.show(*b, d - 1)),
            K::Ite(c, a, b) => format!("(ite {} {} {})", self.show(*c, d - 1), self.show(*a, d - 1), self.show(*b, d - 1)),
            K::Ext(x, y, a) => format!("(ext {} {} {})", x, y, self.show(*a, d - 1)),
            K::Cat(a, b) => format!("(cat {} {})", self.show(*a, d - 1), self.show(*b, d - 1)),
            K::ZExt(a) => format!("(zext {})", self.show(*a, d - 1)),
            K::SExt(a) => format!("(sext {})", self.show(*a, d - 1)),
            _ => h,
        }
    }
    /// `t` with the boolean term `c` replaced by a constant.
    pub fn cofactor(&mut self, t: T, c: T, v: bool) -> T {
        let mut memo: FxMap<T, T> = Default::default();
        let k = if v { self.tru } else { self.fls };
        memo.insert(c, k);
        self.subst(t, &mut memo)
    }
    pub fn subst(&mut self, t: T, memo: &mut FxMap<T, T>) -> T {
        if let Some(&r) = memo.get(&t) { return r; }
        if self.cv(t).is_some() || self.root(t) != NOROOT { return t; }
        let w = self.w(t);
        let r = match self.k(t).clone() {
            K::Const(_) | K::Var(_) | K::Tab(..) => t,
            K::Bin(op, a, b) => { let (x, y) = (self.subst(a, memo), self.subst(b, memo)); if x == a && y == b { t } else { self.bin(op, x, y) } }
            K::Ite(c, a, b) => { let z = self.subst(c, memo); if let Some(v) = self.cv(z) { self.subst(if v == 1 { a } else { b }, memo) } else { let (x, y) = (self.subst(a, memo), self.subst(b, memo)); if x == a && y == b && z == c { t } else { self.ite(z, x, y) } } }
            K::Ext(h, l, a) => { let x = self.subst(a, memo); if x == a { t } else { self.ext(h, l, x) } }
            K::Cat(a, b) => { let (x, y) = (self.subst(a, memo), self.subst(b, memo)); if x == a && y == b { t } else { self.cat(x, y) } }
            K::ZExt(a) => { let x = self.subst(a, memo); if x == a { t } else { self.zext(x, w) } }
            K::SExt(a) => { let x = self.subst(a, memo); if x == a { t } else { self.sext(x, w) } }
        };
        memo.insert(t, r);
        r
    }

    /// Input variables a term depends on, as a bit set (all ones if there are too many to tell).
    pub fn support(&self, t: T) -> u128 { self.m[t as usize].sup }

    /// Evaluate under an assignment of the variables.
    pub fn eval(&self, t: T, model: &[u64], cache: &mut FxMap<T, u128>) -> u128 {
        if let K::Const(v) = *self.k(t) { return v; }
        if let K::Var(i) = *self.k(t) { return model.get(i as usize).copied().unwrap_or(self.vars[i as usize].lo) as u128; }
        if let Some(v) = cache.get(&t) { return *v; }
        let w = self.w(t);
        let r = match self.k(t) {
            K::Const(_) | K::Var(_) => unreachable!(),
            K::Tab(r, a) => {
                let root = &self.roots[*r as usize];
                let kv = self.eval(root.term, model, cache) as u64;
                match root.keys.binary_search(&kv) { Ok(i) => self.arrs[*a as usize][i] as u128, Err(_) => panic!("value {} outside the domain of root {}", kv, r) }
            }
            K::Bin(op, a, b) => { let wa = self.w(*a); fold(*op, wa, self.eval(*a, model, cache), self.eval(*b, model, cache)) }
            K::Ite(c, a, b) => if self.eval(*c, model, cache) == 1 { self.eval(*a, model, cache) } else { self.eval(*b, model, cache) },
            K::Ext(h, l, a) => (self.eval(*a, model, cache) >> l) & mask(h - l + 1),
            K::Cat(a, b) => (self.eval(*a, model, cache) << self.w(*b)) | self.eval(*b, model, cache),
            K::ZExt(a) => self.eval(*a, model, cache),
            K::SExt(a) => sx(self.eval(*a, model, cache), self.w(*a)) as u128 & mask(w),
        };
        cache.insert(t, r);
        r
    }
}
