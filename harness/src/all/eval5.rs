//! Evaluation of hands of five and more cards.
use super::lsx::*;
use super::refm::*;
use super::util::*;
use poker::*;

pub fn c01() {
    let ev = Evaluator::new();
    let h = sym_hand::<5>(0);
    let want = classify(&h);
    match ev.evaluate(cards(&h)) {
        Ok(e) => { cover(1); check(pack(e.class()) == want, 1); }
        Err(_) => check(false, 3),
    }
}

pub fn c01_some() {
    let ev = Evaluator::new();
    let h = some_hands(0, 5);
    let want = classify(&h);
    match ev.evaluate(cards_of(&h)) {
        Ok(e) => { cover(1); check(pack(e.class()) == want, 1); }
        Err(_) => check(false, 3),
    }
}

/// All five-card subsets of n cards.
pub fn subsets(n: usize) -> Vec<[usize; 5]> {
    let mut v = Vec::with_capacity(256);
    for a in 0..n { for b in a + 1..n { for c in b + 1..n { for d in c + 1..n { for e in d + 1..n { v.push([a, b, c, d, e]); } } } } }
    v
}
pub fn pick<T: Copy>(h: &[T], s: [usize; 5]) -> [T; 5] { [h[s[0]], h[s[1]], h[s[2]], h[s[3]], h[s[4]]] }
pub fn c03() {
    let ev = Evaluator::new();
    let l = ladder(&ev);
    let n = param(0);
    let h = some_hands(0, n);
    let cs = cards_of(&h);
    let subs = subsets(n as usize);
    // the strengths of the subsets as the executor's basis
    for s in &subs { position(&l, &pick(&h, *s)); }
    let got = match ev.evaluate(&cs) { Ok(e) => e, Err(_) => { check(false, 3); return } };
    cover(1);
    let class = pack(got.class());
    let mut some = false;
    for s in &subs {
        let x = match ev.evaluate(pick(&cs, *s)) { Ok(x) => x, Err(_) => { check(false, 4); return } };
        check(got >= x, 1);
        some |= (got == x) & (class == pack(x.class()));
    }
    check(some, 2);
}

/// Two arbitrary hands compare as the rules say, by every operator.
pub fn c02() {
    let ev = Evaluator::new();
    let g = sym_hand::<5>(0);
    let h = sym_hand::<5>(5);
    let (sg, sh) = (score(&g), score(&h));
    let (a, b) = match (ev.evaluate(cards(&g)), ev.evaluate(cards(&h))) { (Ok(a), Ok(b)) => (a, b), _ => { check(false, 3); return } };
    cover(1);
    check((a > b) == (sg > sh), 1);
    check((a == b) == (sg == sh), 2);
}
/// Five cards have the strength and class of their place on the ladder of all 7462 strengths.
pub fn c02_ladder() {
    let ev = Evaluator::new();
    let l = ladder(&ev);
    for i in 1..7462 { check(l.scores[i - 1] < l.scores[i], 1); check(l.evals[i - 1] < l.evals[i], 2); }
    let h = some_hands(0, 5);
    let p = position(&l, &h) as usize;
    let e = match ev.evaluate(cards_of(&h)) { Ok(e) => e, Err(_) => { check(false, 3); return } };
    cover(1);
    check(e == l.evals[p], 4);
    check(pack(e.class()) == pack(l.evals[p].class()), 5);
}
/// Some of the cards given, without the ladder: for spaces small enough to be searched directly.
pub fn c03_some() {
    let ev = Evaluator::new();
    let n = param(0);
    let h = some_hands(0, n);
    let cs = cards_of(&h);
    let got = match ev.evaluate(&cs) { Ok(e) => e, Err(_) => { check(false, 3); return } };
    cover(1);
    let class = pack(got.class());
    let mut some = false;
    for s in &subsets(n as usize) {
        let x = match ev.evaluate(pick(&cs, *s)) { Ok(x) => x, Err(_) => { check(false, 4); return } };
        check(got >= x, 1);
        some |= (got == x) & (class == pack(x.class()));
    }
    check(some, 2);
}
