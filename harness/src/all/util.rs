use super::lsx::*;
use poker::*;

/// Rank and suit of an arbitrary card as two independent inputs.
#[derive(Clone, Copy)]
pub struct SymCard { pub r: u32, pub s: u32 }
pub fn sym_card(id: u32) -> SymCard { SymCard { r: sym(2 * id, 0, 12), s: sym(2 * id + 1, 0, 3) } }
pub static RANKS: [Rank; 13] = [Rank::Two, Rank::Three, Rank::Four, Rank::Five, Rank::Six, Rank::Seven, Rank::Eight, Rank::Nine, Rank::Ten, Rank::Jack, Rank::Queen, Rank::King, Rank::Ace];
pub static SUITS: [Suit; 4] = [Suit::Clubs, Suit::Diamonds, Suit::Hearts, Suit::Spades];
pub fn rank_of(r: u32) -> Rank { RANKS[r as usize] }
pub fn suit_of(s: u32) -> Suit { SUITS[s as usize] }
impl SymCard { pub fn card(self) -> Card { Card::new(rank_of(self.r), suit_of(self.s)) } }
pub fn same(a: SymCard, b: SymCard) -> bool { (a.r == b.r) & (a.s == b.s) }
/// N pairwise distinct arbitrary cards.
pub fn sym_hand<const N: usize>(first: u32) -> [SymCard; N] {
    let mut h = [SymCard { r: 0, s: 0 }; N];
    for i in 0..N { h[i] = sym_card(first + i as u32); }
    for i in 0..N { for j in 0..i { assume(!same(h[i], h[j])); } }
    h
}
pub fn cards<const N: usize>(h: &[SymCard; N]) -> [Card; N] {
    let mut o = [h[0].card(); N];
    for i in 1..N { o[i] = h[i].card(); }
    o
}

/// One hand of every strength, weakest first, each with the evaluator's answer. All of it is concrete.
pub struct Ladder { pub evals: Vec<Eval>, pub scores: Vec<u32> }
pub fn ladder(ev: &Evaluator) -> Ladder {
    use super::refm::{score_flush, score_mixed};
    let mut v: Vec<(u32, [u8; 5], bool)> = Vec::with_capacity(7462);
    for a in 0..13u8 { for b in a..13 { for c in b..13 { for d in c..13 { for e in d..13 {
        if a == e { continue; }
        let r = [a, b, c, d, e];
        let mut key = 0u64;
        let mut mask = 0u32;
        for x in r { key += 1u64 << (3 * x); mask |= 1 << x; }
        v.push((score_mixed(key), r, false));
        if a < b && b < c && c < d && d < e { v.push((score_flush(mask), r, true)); }
    } } } } }
    v.sort_unstable_by_key(|x| x.0);
    let mut l = Ladder { evals: Vec::with_capacity(v.len()), scores: Vec::with_capacity(v.len()) };
    for (s, r, flush) in v {
        let mut h = [RANKS[0]; 5].map(|x| Card::new(x, Suit::Spades));
        for i in 0..5 {
            // equal ranks are adjacent, so four suits in turn keep the cards distinct unless all five are equal
            let su = if flush { 0 } else { [0, 1, 2, 3, 0][i] };
            h[i] = Card::new(RANKS[r[i] as usize], SUITS[su]);
        }
        match ev.evaluate(h) { Ok(e) => { l.evals.push(e); l.scores.push(s) } Err(_) => check(false, 90) }
    }
    check(l.evals.len() == 7462, 91);
    while l.scores.len() < 8192 { l.scores.push(u32::MAX); }
    l
}
impl Ladder {
    /// Number of strengths below the given score, without branches.
    pub fn find(&self, s: u32) -> u32 {
        let mut lo = 0usize;
        let mut step = 4096;
        while step > 0 { lo += step * (self.scores[lo + step - 1] < s) as usize; step /= 2; }
        // 9999: no hand has this score
        let hit = ((self.scores[lo] == s) as u32).wrapping_neg();
        (lo as u32 & hit) | (9999 & !hit)
    }
    /// Any evaluation there is: one of each strength, and the constants.
    pub fn any(&mut self) {
        self.evals.push(Eval::BEST);
        self.evals.push(Eval::WORST);
    }
    pub fn sym(&self, id: u32) -> (u32, Eval) {
        let i = root(sym(id, 0, self.evals.len() as u32 - 1));
        (i, self.evals[i as usize])
    }
}
/// The same for a number of cards given as a parameter.
pub fn sym_hands(first: u32, n: u32) -> Vec<SymCard> {
    let mut h: Vec<SymCard> = Vec::with_capacity(64);
    for i in 0..n { h.push(sym_card(first + i)); }
    for i in 0..n as usize { for j in 0..i { assume(!same(h[i], h[j])); } }
    h
}
/// n pairwise distinct cards: all arbitrary, or, if the second parameter is not 0, as the parameters from the third on say,
/// each 14 * suit + rank with 4 for an arbitrary suit and 13 for an arbitrary rank.
pub fn some_hands(first: u32, n: u32) -> Vec<SymCard> {
    if param(1) == 0 { return sym_hands(first, n); }
    let mut h: Vec<SymCard> = Vec::with_capacity(64);
    if param(1) == 2 { return pair_among(first, n); }
    for i in 0..n {
        let (k, id) = (param(2 + i), 2 * (first + i));
        let r = if k % 14 == 13 { sym(id, 0, 12) } else { k % 14 };
        let s = if k / 14 == 4 { sym(id + 1, 0, 3) } else { k / 14 };
        h.push(SymCard { r, s });
    }
    for i in 0..n as usize { for j in 0..i { assume(!same(h[i], h[j])); } }
    h
}
/// n distinct cards, of which those are given whose parameter is below 56; the others are arbitrary, by one input: two of them in either order, three in one.
fn pair_among(first: u32, n: u32) -> Vec<SymCard> {
    let given: Vec<u32> = (0..n).map(|i| param(2 + i)).filter(|k| *k < 56).map(|k| k / 14 * 13 + k % 14).collect();
    let left: Vec<u32> = (0..52).filter(|k| !given.contains(k)).collect();
    let m = n - given.len() as u32;
    let l = left.len();
    let mut picks: Vec<[usize; 3]> = Vec::with_capacity(25000);
    for a in 0..l { match m {
        0 => {}
        1 => picks.push([a, 0, 0]),
        2 => for b in 0..l { if a != b { picks.push([a, b, 0]) } },
        _ => for b in a + 1..l { for c in b + 1..l { picks.push([a, b, c]) } },
    } }
    if m == 0 { picks.push([0; 3]); }
    let all = picks.len() as u32;
    let x = root(sym(2 * first, 0, all - 1)) as usize;
    // the ranks and suits of the arbitrary cards for every value of the input
    let mut rs: Vec<Vec<(u32, u32)>> = vec![];
    for i in 0..m { let mut t = Vec::with_capacity(all as usize); for p in &picks { let k = left[p[i as usize]]; t.push((k % 13, k / 13)); } rs.push(t); }
    let mut h = Vec::with_capacity(64);
    let mut j = 0;
    for i in 0..n {
        let k = param(2 + i);
        if k < 56 { h.push(SymCard { r: k % 14, s: k / 14 }); } else { let (r, s) = rs[j][x]; j += 1; h.push(SymCard { r, s }); }
    }
    h
}
pub fn cards_of(h: &[SymCard]) -> Vec<Card> { let mut v = Vec::with_capacity(64); for c in h { v.push(c.card()); } v }
