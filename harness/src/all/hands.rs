//! Laws relating the evaluations of several hands.
use super::eval5::{pick, subsets};
use super::laws::hash;
use super::lsx::*;
use super::refm::*;
use super::util::*;
use poker::*;

fn ok(ev: &Evaluator, c: &[Card]) -> Option<Eval> { match ev.evaluate(c) { Ok(e) => Some(e), Err(_) => { check(false, 90); None } } }
/// Tells the executor the strengths of all five-card subsets.
fn basis(l: &Ladder, h: &[SymCard]) { if param(1) == 0 { for s in subsets(h.len()) { position(l, &pick(h, s)); } } }
fn ladder_if(ev: &Evaluator, b: bool) -> Ladder { if b { ladder(ev) } else { Ladder { evals: Vec::new(), scores: Vec::new() } } }
fn agree(a: Eval, b: Eval, code: u32) {
    check(a == b, code);
    check(!(a < b) & !(a > b), code + 1);
    check(pack(a.class()) == pack(b.class()), code + 2);
}
/// Two neighbours swapped and all rotated by one: together these generate every order.
pub fn c04() {
    let ev = Evaluator::new();
    let l = ladder_if(&ev, param(1) == 0);
    let n = param(0);
    let mut h = some_hands(0, n);
    basis(&l, &h);
    let Some(a) = ok(&ev, &cards_of(&h)) else { return };
    h.swap(0, 1);
    basis(&l, &h);
    let Some(b) = ok(&ev, &cards_of(&h)) else { return };
    h.swap(0, 1);
    h.rotate_left(1);
    basis(&l, &h);
    let Some(c) = ok(&ev, &cards_of(&h)) else { return };
    cover(1);
    agree(a, b, 1);
    agree(a, c, 4);
}
/// Some given cards among them: all rotations, all swaps of neighbours, reversed, and sorted by the given order's odds and evens.
pub fn c04_some() {
    let ev = Evaluator::new();
    let n = param(0);
    let h = some_hands(0, n);
    let Some(a) = ok(&ev, &cards_of(&h)) else { return };
    cover(1);
    let to = |g: &[SymCard], code: u32| if let Some(b) = ok(&ev, &cards_of(g)) { agree(a, b, code); };
    let few = n <= 8;
    for i in 1..n as usize {
        if !few && i % 3 != 1 { continue; }
        let mut g = h.clone();
        g.rotate_left(i);
        to(&g, 1);
        let mut g = h.clone();
        g.swap(i - 1, i);
        to(&g, 4);
    }
    let mut g = h.clone();
    g.reverse();
    to(&g, 7);
    let g: Vec<SymCard> = (0..n as usize).map(|i| if 2 * i < n as usize { h[2 * i] } else { h[(2 * i - n as usize) | 1] }).collect();
    let mut seen = 0u32;
    for i in 0..n as usize { let k = if 2 * i < n as usize { 2 * i } else { (2 * i - n as usize) | 1 }; seen |= 1 << k; }
    if seen == (1 << n) - 1 { to(&g, 10); }
}
/// The three swaps of neighbouring suits, which generate all relabellings.
pub fn c05() {
    let ev = Evaluator::new();
    let l = ladder_if(&ev, param(1) == 0);
    let n = param(0);
    let h = some_hands(0, n);
    basis(&l, &h);
    let Some(a) = ok(&ev, &cards_of(&h)) else { return };
    cover(1);
    for k in 0..3 {
        let g: Vec<SymCard> = h.iter().map(|c| SymCard { r: c.r, s: (c.s + (c.s == k) as u32) - (c.s == k + 1) as u32 }).collect();
        basis(&l, &g);
        let Some(b) = ok(&ev, &cards_of(&g)) else { return };
        agree(a, b, 1 + 3 * k);
    }
}
/// One more card.
pub fn c24() {
    let ev = Evaluator::new();
    let l = ladder_if(&ev, param(1) == 0);
    let n = param(0) as usize;
    let h = some_hands(0, n as u32 + 1);
    let cs = cards_of(&h);
    basis(&l, &h);
    let Some(a) = ok(&ev, &cs[..n]) else { return };
    let Some(b) = ok(&ev, &cs) else { return };
    cover(1);
    check(b >= a, 1);
    check(!(b < a), 2);
    // if better, a five-card hand with the new card is that good
    let mut some = b == a;
    for s in subsets(n + 1) {
        if s[4] != n { continue; }
        let Some(x) = ok(&ev, &pick(&cs, s)) else { return };
        some |= x == b;
    }
    check(some, 3);
}
/// More cards: best exactly with a royal flush among them.
pub fn c08_more() {
    let ev = Evaluator::new();
    let l = ladder_if(&ev, param(1) == 0);
    let h = some_hands(0, param(0));
    basis(&l, &h);
    let Some(e) = ok(&ev, &cards_of(&h)) else { return };
    cover(1);
    check(e >= Eval::WORST, 1);
    check(e <= Eval::BEST, 2);
    let mut royal = false;
    for s in subsets(h.len()) { let p = pick(&h, s); royal |= if param(1) == 0 { position(&l, &p) == 7461 } else { score(&p) == SFLUSH << 24 | 12 }; }
    check((e == Eval::BEST) == royal, 3);
    check(e.is_royal_flush() == royal, 4);
    check(royal == (pack(e.class()) == SFLUSH | 12 << 4), 5);
}
/// What more cards evaluate to has the class that goes with its strength.
pub fn c10_hand() {
    let ev = Evaluator::new();
    let l = ladder_if(&ev, param(1) == 0);
    let h = some_hands(0, param(0));
    basis(&l, &h);
    let Some(e) = ok(&ev, &cards_of(&h)) else { return };
    cover(1);
    let mut some = false;
    for s in subsets(h.len()) {
        let x = if param(1) == 0 { l.evals[position(&l, &pick(&h, s)) as usize] } else { let Some(x) = ok(&ev, &cards_of(&pick(&h, s))) else { return }; x };
        some |= (e == x) & (pack(e.class()) == pack(x.class()));
    }
    check(some, 1);
}
fn sym_any(n: usize) -> Vec<SymCard> { let mut v = Vec::with_capacity(64); for i in 0..n { v.push(sym_card(i as u32)) } v }
fn c06_dup_of(ev: &Evaluator, h: &[SymCard]) {
    let cs = cards_of(h);
    match ev.evaluate(&cs) {
        Err(EvalError::CardsNotUnique(v)) => {
            check(v.len() == cs.len(), 1);
            let mut eq = true;
            for i in 0..cs.len() { eq &= v[i] == cs[i]; }
            check(eq, 2);
        }
        _ => check(false, 3),
    }
}
/// Up to a few arbitrary cards of which the ones at two given places are the same: every pair of places in turn.
pub fn c06_dup() {
    let ev = Evaluator::new();
    let n = param(0) as usize;
    cover(1);
    for q in 0..n { for p in 0..q {
        let mut h = sym_any(n);
        h[q] = h[p];
        c06_dup_of(&ev, &h);
    } }
}
/// Distinct cards: never an error from five cards on, the size error below.
pub fn c06_distinct() {
    let ev = Evaluator::new();
    let n = param(0);
    let h = some_hands(0, n);
    match ev.evaluate(cards_of(&h)) {
        Ok(_) => { cover(1); check(n >= 5, 1); }
        Err(EvalError::InvalidHandSize(k)) => { cover(2); check(n < 5, 2); check(k == n as usize, 3); }
        _ => check(false, 4),
    }
}
/// Long slices: all 52 cards over and over up to length n, except that the card at place p, arbitrary, stands at place q again.
pub fn c06_long() {
    let ev = Evaluator::new();
    let n = param(0) as usize;
    let mut h = Vec::with_capacity(64);
    for i in 0..n { let k = i as u32 % 52; h.push(SymCard { r: k % 13, s: k / 13 }); }
    let (p, q) = (param(1) as usize, param(2) as usize);
    cover(1);
    h[p] = sym_card(0);
    h[q] = h[p];
    c06_dup_of(&ev, &h);
}
/// The history of an evaluator, its copies and its origin do not show in its answers.
pub fn c22() {
    let ev = Evaluator::new();
    let l = ladder(&ev);
    let g = sym_hand::<5>(0);
    let h = sym_hand::<5>(5);
    position(&l, &g);
    let p = position(&l, &h);
    let Some(a) = ok(&ev, &cards(&h)) else { return };
    let fresh = Evaluator::new();
    check(fresh == ev, 10);
    let Some(_) = ok(&fresh, &cards(&g)) else { return };
    let copy = fresh.clone();
    let Some(b) = ok(&fresh, &cards(&h)) else { return };
    let Some(c) = ok(&copy, &cards(&h)) else { return };
    cover(1);
    agree(a, b, 1);
    agree(a, c, 4);
    check(a == l.evals[p as usize], 7);
    check(hash(&a) == hash(&b), 8);
    check(fresh == ev && copy == ev && copy == fresh, 11);
}
/// Partly given hands, evaluated again after relatives of theirs: suits exchanged and turned, ranks moved, cards added, taken and repeated.
pub fn c22_some() {
    let ev = Evaluator::new();
    let n = param(0) as usize;
    let h = some_hands(0, n as u32);
    let cs = cards_of(&h);
    let Some(a) = ok(&ev, &cs) else { return };
    cover(1);
    if n == 5 { check(pack(a.class()) == classify(&h), 20); }
    let mut gs: Vec<Vec<SymCard>> = Vec::new();
    for i in 0..5 { for j in 0..i { let mut g = h.clone(); g[i].s = h[j].s; g[j].s = h[i].s; gs.push(g); } }
    for i in 0..5 { for j in 0..i { let mut g = h.clone(); g[i].r = h[j].r; g[j].r = h[i].r; g[j].s = h[j].s ^ 1; gs.push(g); } }
    for i in 0..5 { let mut g = h.clone(); g[i].s = (h[i].s + 1) & 3; gs.push(g); }
    for k in 1..4 { gs.push(h.iter().map(|c| SymCard { r: c.r, s: (c.s + k) & 3 }).collect()); }
    gs.push(h.iter().map(|c| SymCard { r: 12 - c.r, s: c.s }).collect());
    gs.push(h.iter().map(|c| SymCard { r: 12 - c.r, s: 3 - c.s }).collect());
    gs.push(h.iter().rev().copied().collect());
    let mut x = 1u64;
    for k in 0..64u32 {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        gs.push(h.iter().enumerate().map(|(i, c)| SymCard { r: c.r, s: if k < 4 { k } else { (x >> (33 + 2 * i)) as u32 & 3 } }).collect());
    }
    let mut g = h.clone(); g[0] = g[4]; gs.push(g);
    gs.push(h[..4].to_vec());
    gs.push(h[1..].to_vec());
    if n == 5 { let mut g = h.clone(); g.push(SymCard { r: (h[0].r + 1) % 13, s: h[0].s }); gs.push(g.clone()); g.push(SymCard { r: (h[1].r + 1) % 13, s: h[1].s }); gs.push(g); }
    let copy = ev.clone();
    let mut other = Evaluator::new();
    for (k, g) in gs.iter().enumerate() {
        if n > 5 && k % 9 != 0 { continue; }
        // something else in between, so that it is the relative that comes last
        let _ = ev.evaluate([Card::new(RANKS[k % 13], SUITS[0]), Card::new(RANKS[0], SUITS[1]), Card::new(RANKS[5], SUITS[2]), Card::new(RANKS[3], SUITS[3]), Card::new(RANKS[11], SUITS[3])]);
        if let Ok(e) = (if k % 3 == 1 { &other } else { &ev }).evaluate(cards_of(g)) { if g.len() == 5 { check(pack(e.class()) == classify(g), 21); } }
        let Some(b) = ok(if k % 3 == 2 { &copy } else { &ev }, &cs) else { return };
        agree(a, b, 1);
        check(hash(&a) == hash(&b), 8);
        if k % 8 == 7 { other = ev.clone(); }
    }
    let Some(b) = ok(&copy, &cs) else { return };
    agree(a, b, 4);
    check(ev == copy && copy == other, 11);
}
/// A long history: 640 evaluations of given hands of all sizes, errors and clones among them, then hands evaluated before and after.
pub fn c22_long() {
    let ev = Evaluator::new();
    let n = param(0) as usize;
    let h = some_hands(0, n as u32);
    let cs = cards_of(&h);
    let Some(a) = ok(&ev, &cs) else { return };
    cover(1);
    let mut x = 27u64;
    let mut other = Evaluator::new();
    for k in 0..640u32 {
        let mut g: Vec<Card> = Vec::with_capacity(8);
        for i in 0..(if k % 16 == 9 { 6 } else { 5 }) {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            g.push(Card::new(RANKS[((x >> 33) % 13) as usize], SUITS[if k % 5 == 4 { (k % 4) as usize } else { i & 3 }]));
        }
        if k % 16 == 3 { g.truncate((k / 16 % 5) as usize); }
        let _ = (if k % 3 == 0 { &other } else { &ev }).evaluate(&g);
        if k % 64 == 63 {
            other = ev.clone();
            let Some(b) = ok(&ev, &cs) else { return };
            agree(a, b, 1);
        }
    }
    let Some(b) = ok(&ev, &cs) else { return };
    agree(a, b, 2);
    let Some(b) = ok(&other, &cs) else { return };
    agree(a, b, 3);
    check(ev == other, 11);
}
pub fn c22_default_some() {
    let ev = Evaluator::new();
    let d = Evaluator::default();
    check(d == ev, 10);
    let cs = cards_of(&some_hands(0, param(0)));
    cover(1);
    let Some(a) = ok(&d, &cs) else { return };
    let Some(b) = ok(&ev, &cs) else { return };
    agree(a, b, 1);
}
pub fn c22_default() {
    let ev = Evaluator::new();
    let d = Evaluator::default();
    check(d == ev, 10);
    let l = ladder(&ev);
    let h = sym_hand::<5>(0);
    position(&l, &h);
    let Some(a) = ok(&ev, &cards(&h)) else { return };
    let Some(b) = ok(&d, &cards(&h)) else { return };
    cover(1);
    agree(a, b, 1);
}
/// Errors leave no trace either.
pub fn c22_errors() {
    let ev = Evaluator::new();
    let l = ladder(&ev);
    let h = sym_hand::<5>(0);
    let p = position(&l, &h);
    let used = Evaluator::new();
    let cs = cards(&h);
    check(used.evaluate(&cs[..3]).is_err(), 10);
    check(used.evaluate([cs[0], cs[1], cs[2], cs[3], cs[0]]).is_err(), 11);
    let Some(a) = ok(&used, &cs) else { return };
    let Some(b) = ok(&used, &cs) else { return };
    cover(1);
    check(a == l.evals[p as usize], 12);
    agree(a, b, 1);
    check(used == ev, 13);
}

// ---- several threads
struct Shared { ev: *const Evaluator, n: usize, hands: [[SymCard; 14]; 3], want: [Option<Eval>; 3] }
static mut SHARED: Shared = Shared { ev: std::ptr::null(), n: 0, hands: [[SymCard { r: 0, s: 0 }; 14]; 3], want: [None; 3] };
fn one(k: usize, code: u32) {
    let x = unsafe { &*std::ptr::addr_of!(SHARED) };
    let cs = cards_of(&x.hands[k][..x.n]);
    match (unsafe { &*x.ev }.evaluate(&cs), x.want[k]) {
        (Ok(a), Some(b)) => { check(a == b, code); check(pack(a.class()) == pack(b.class()), code + 1); }
        (Err(_), None) => {}
        _ => check(false, code + 2),
    }
}
/// What the other thread does.
pub fn c27_other() { one(1, 20); one(2, 23); one(1, 26); }
struct Sync_<T>(std::marker::PhantomData<T>);
trait NotSync { fn is_sync(&self) -> bool { false } }
impl<T> NotSync for &Sync_<T> {}
trait IsSync { fn is_sync(&self) -> bool { true } }
impl<T: Sync + Send> IsSync for Sync_<T> {}
/// An evaluation with another thread's evaluations at any one point of it: on the current code there is no such point, because evaluating writes nothing
/// another thread can see.
pub fn c27() {
    check((&Sync_::<Evaluator>(std::marker::PhantomData)).is_sync(), 60);
    check((&Sync_::<Eval>(std::marker::PhantomData)).is_sync() && (&Sync_::<EvalError>(std::marker::PhantomData)).is_sync() && (&Sync_::<Card>(std::marker::PhantomData)).is_sync(), 61);
    let ev = Evaluator::new();
    let n = param(0) as usize;
    let h = some_hands(0, n as u32);
    let x = unsafe { &mut *std::ptr::addr_of_mut!(SHARED) };
    x.ev = &ev;
    x.n = n;
    let v = split(sym(97, 0, 2));
    for i in 0..n {
        x.hands[0][i] = h[i];
        x.hands[1][i] = SymCard { r: 12 - h[i].r, s: if v == 0 { h[i].s } else { (h[i].s + 1) & 3 } };
        x.hands[2][i] = SymCard { r: if v == 2 { (h[i].r + 1) % 13 } else { h[i].r }, s: (h[i].s + i as u32 * v) & 3 };
    }
    // what each gives when nothing else happens
    watch(true);
    let eval = |k: usize| ev.evaluate(cards_of(&x.hands[k][..n])).ok();
    let want = [eval(0), eval(1), eval(2)];
    for k in [0, 2, 1, 0] { check(eval(k) == want[k], 10); }
    let _ = ev.evaluate([Card::new(RANKS[0], SUITS[0]); 5]).is_err();
    cover(1);
    let written = watch(false);
    if written == 0 { return; }
    x.want = want;
    let w = split(sym(98, 0, 3));
    let warm = || if w > 0 { one(w as usize - 1, 30) };
    watch(true);
    warm();
    points(true);
    one(0, 33);
    let p = points(false);
    watch(false);
    let k = split(sym(99, 0, 63));
    assume(k < p);
    warm();
    preempt(k);
    loop { one(0, 40); if !again() { break; } }
    done();
    one(0, 43);
    one(1, 46);
    one(2, 49);
    one(0, 52);
}
