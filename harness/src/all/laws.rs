//! Laws of evaluations and classes, over all strengths.
use super::lsx::*;
use super::refm::*;
use super::util::*;
use poker::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// Collects what is hashed: equal for equal sequences of bytes, different for different ones as far as 64 bits go.
pub struct Sum(u64);
impl Hasher for Sum {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 << 8 | self.0 >> 56) ^ *x as u64; } }
}
pub fn hash<T: Hash>(t: &T) -> u64 { let mut s = Sum(0); t.hash(&mut s); s.finish() }

/// All operators agree with each other on a and b.
fn ops(a: Eval, b: Eval) {
    let (lt, eq, gt) = (a < b, a == b, a > b);
    check(lt as u32 + eq as u32 + gt as u32 == 1, 1);
    check((a <= b) == !gt, 2);
    check((a >= b) == !lt, 3);
    check((a != b) == !eq, 4);
    let o = |o: Ordering| o as i8 as i32;
    let want = gt as i32 - lt as i32;
    check(o(a.cmp(&b)) == want, 5);
    check(match a.partial_cmp(&b) { Some(x) => o(x) == want, None => false }, 6);
    check(a.is_better_than(b) == gt, 7);
    check(a.is_worse_than(b) == lt, 8);
    check(a.is_equal_to(b) == eq, 9);
    check((b > a) == lt, 10);
    check((b < a) == gt, 11);
    check((b == a) == eq, 12);
    check(!eq | (hash(&a) == hash(&b)), 13);
}
fn max_min(a: Eval, b: Eval) {
    let (hi, lo) = (a.max(b), a.min(b));
    check(hi >= a, 14);
    check(hi >= b, 15);
    check((hi == a) | (hi == b), 16);
    check(lo <= a, 17);
    check(lo <= b, 18);
    check((lo == a) | (lo == b), 19);
}
pub fn c07_pairs() {
    let ev = Evaluator::new();
    let l = ladder(&ev);
    let (i, a) = l.sym(0);
    let (j, b) = l.sym(1);
    cover(1);
    ops(a, b);
    max_min(a, b);
    ops(a, a);
    // the order is the one of the ladder, so it is total, antisymmetric and transitive
    check((a < b) == (i < j), 20);
    check((a == b) == (i == j), 21);
    for c in [Eval::BEST, Eval::WORST] {
        ops(a, c);
        ops(c, a);
        max_min(a, c);
        ops(c, c);
    }
    ops(Eval::BEST, Eval::WORST);
    ops(Eval::WORST, Eval::BEST);
    check((a == Eval::BEST) == (i == 7461), 22);
    check((a == Eval::WORST) == (i == 0), 23);
    check(Eval::BEST > Eval::WORST, 24);
}
pub fn c07_triples() {
    let ev = Evaluator::new();
    let mut l = ladder(&ev);
    l.any();
    let (_, a) = l.sym(0);
    let (_, b) = l.sym(1);
    let (_, c) = l.sym(2);
    cover(1);
    check(!((a < b) & (b < c)) | (a < c), 1);
    check(!((a == b) & (b == c)) | (a == c), 2);
    check(!((a <= b) & (b <= c)) | (a <= c), 3);
}
pub fn c09() {
    let ev = Evaluator::new();
    let mut l = ladder(&ev);
    l.any();
    let (_, a) = l.sym(0);
    cover(1);
    c09_of(a);
}
fn c09_of(a: Eval) {
    let p = [a.is_high_card(), a.is_pair(), a.is_two_pair(), a.is_three_of_a_kind(), a.is_straight(), a.is_flush(), a.is_full_house(), a.is_four_of_a_kind(), a.is_straight_flush()];
    let c = pack(a.class());
    for i in 0..9 { check(p[i] == (c & 15 == i as u32), 1 + i as u32); }
    check(a.is_royal_flush() == (c == SFLUSH | 12 << 4), 10);
}
pub fn c09_hand() {
    let ev = Evaluator::new();
    let l = ladder(&ev);
    let h = some_hands(0, param(0));
    for s in super::eval5::subsets(h.len()) { position(&l, &super::eval5::pick(&h, s)); }
    match ev.evaluate(cards_of(&h)) { Ok(a) => { cover(1); c09_of(a) } Err(_) => check(false, 90) }
}
/// Along the ladder classes never decrease. With the order of class values being the one of their numbers (below), this gives all pairs.
pub fn c10_steps() {
    let ev = Evaluator::new();
    let l = ladder(&ev);
    let i = root(sym(0, 0, 7460)) as usize;
    let (a, b) = (l.evals[i], l.evals[i + 1]);
    cover(1);
    check(a < b, 1);
    check(a.class() <= b.class(), 2);
    check(!(a.class() > b.class()), 3);
    check(key(a.class()) <= key(b.class()), 4);
    check(l.evals[0] == Eval::WORST && l.evals[0].class() == Eval::WORST.class(), 5);
    check(l.evals[7461] == Eval::BEST && l.evals[7461].class() == Eval::BEST.class(), 6);
}
/// Number of a class: category first, then the ranks.
fn key(c: EvalClass) -> u32 { let p = pack(c); (p & 15) << 8 | (p >> 4 & 15) << 4 | p >> 8 & 15 }
pub fn c10_pairs() {
    let ev = Evaluator::new();
    let l = ladder(&ev);
    let (_, a) = l.sym(0);
    let (_, b) = l.sym(1);
    cover(1);
    let (x, y) = (a.class(), b.class());
    check(!(a > b) | (x >= y), 1);
    check(!(a == b) | (x == y), 2);
    check(!(x > y) | (a > b), 3);
}
/// Every class value, whether or not some hand has it, packed with the category in front.
pub fn sym_class(id: u32) -> (u32, EvalClass) {
    let cat = sym(id, 0, 8);
    let (r, q) = (sym(id + 1, 0, 12), sym(id + 2, 0, 12));
    let (a, b) = (rank_of(r), rank_of(q));
    let two = cat == TWO_PAIR || cat == FULL;
    let c = match cat {
        HIGH => EvalClass::HighCard { high_rank: a },
        PAIR => EvalClass::Pair { pair: a },
        TWO_PAIR => EvalClass::TwoPair { first_pair: a, second_pair: b },
        TRIPS => EvalClass::ThreeOfAKind { trips: a },
        STRAIGHT => EvalClass::Straight { high_rank: a },
        FLUSH => EvalClass::Flush { high_rank: a },
        FULL => EvalClass::FullHouse { trips: a, pair: b },
        QUADS => EvalClass::FourOfAKind { quads: a },
        _ => EvalClass::StraightFlush { high_rank: a },
    };
    (cat << 8 | r << 4 | if two { q } else { 0 }, c)
}
pub fn c10_values() {
    let (m, x) = sym_class(0);
    let (n, y) = sym_class(3);
    cover(1);
    check((x < y) == (m < n), 1);
    check((x == y) == (m == n), 2);
    check((x > y) == (m > n), 3);
    check((x <= y) == (m <= n), 4);
    check((x >= y) == (m >= n), 5);
    let want = (m > n) as i32 - (m < n) as i32;
    check(x.cmp(&y) as i8 as i32 == want, 6);
    check(match x.partial_cmp(&y) { Some(o) => o as i8 as i32 == want, None => false }, 7);
}
pub fn c08() {
    let ev = Evaluator::new();
    let h = sym_hand::<5>(0);
    let s = score(&h);
    let e = match ev.evaluate(cards(&h)) { Ok(e) => e, Err(_) => { check(false, 90); return } };
    cover(1);
    check(e >= Eval::WORST, 1);
    check(e <= Eval::BEST, 2);
    let royal = s == SFLUSH << 24 | 12;
    check((e == Eval::BEST) == royal, 3);
    check((e == Eval::WORST) == (s == 0x5 << 16 | 0x3210), 4);
    check(e.is_royal_flush() == royal, 5);
    check(!royal | (pack(e.class()) == SFLUSH | 12 << 4), 6);
    check(Eval::BEST.is_royal_flush() && !Eval::WORST.is_royal_flush(), 7);
    check(pack(Eval::BEST.class()) == SFLUSH | 12 << 4 && pack(Eval::WORST.class()) == HIGH | 5 << 4, 8);
}
