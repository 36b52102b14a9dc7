//! Reference model: the rules of poker, written from the rules and not from the crate.
use super::lsx::*;
use super::util::*;
use poker::*;

/// Category numbers of the reference: 0 high card .. 8 straight flush.
pub const HIGH: u32 = 0;
pub const PAIR: u32 = 1;
pub const TWO_PAIR: u32 = 2;
pub const TRIPS: u32 = 3;
pub const STRAIGHT: u32 = 4;
pub const FLUSH: u32 = 5;
pub const FULL: u32 = 6;
pub const QUADS: u32 = 7;
pub const SFLUSH: u32 = 8;

/// Multiset of ranks: three bits of count per rank.
pub fn rank_key(h: &[SymCard]) -> u64 {
    let mut k = 0u64;
    for c in h { k += 1u64 << (3 * c.r); }
    k
}
pub fn rank_mask(h: &[SymCard]) -> u32 {
    let mut m = 0u32;
    for c in h { m |= 1u32 << c.r; }
    m
}
pub fn all_one_suit(h: &[SymCard]) -> bool {
    let mut b = true;
    for i in 1..h.len() { b &= h[i].s == h[0].s; }
    b
}
fn count(key: u64, r: u32) -> u32 { (key >> (3 * r)) as u32 & 7 }
fn sel(c: bool, a: u32, b: u32) -> u32 { let m = (c as u32).wrapping_neg(); (a & m) | (b & !m) }

/// Highest card of the straight the ranks form (3 = Five for A-2-3-4-5), or 99.
fn straight_high(mask: u32) -> u32 {
    let mut h = 99;
    h = sel(mask == 0b1_0000_0000_1111, 3, h);
    for lo in 0..9 { h = sel(mask == 0b11111 << lo, lo + 4, h); }
    h
}
fn top_rank(mask: u32) -> u32 {
    let mut t = 99;
    for r in 0..13 { t = sel(mask >> r & 1 == 1, r, t); }
    t
}
/// Category and the (up to two) ranks it names, as category | first << 4 | second << 8, of five cards of mixed suits.
pub fn classify_mixed(key: u64) -> u32 {
    let (mut quad, mut trip, mut p1, mut p2) = (99, 99, 99, 99);
    let mut mask = 0u32;
    for r in 0..13 {
        let n = count(key, r);
        quad = sel(n == 4, r, quad);
        trip = sel(n == 3, r, trip);
        p2 = sel(n == 2, p1, p2);
        p1 = sel(n == 2, r, p1); // the higher pair ends up in p1
        mask |= ((n > 0) as u32) << r;
    }
    let high = straight_high(mask);
    let mut c = HIGH | top_rank(mask) << 4;
    c = sel(p1 != 99, PAIR | p1 << 4, c);
    c = sel(p2 != 99, TWO_PAIR | p1 << 4 | p2 << 8, c);
    c = sel(trip != 99, TRIPS | trip << 4, c);
    c = sel(high != 99, STRAIGHT | high << 4, c);
    c = sel((trip != 99) & (p1 != 99), FULL | trip << 4 | p1 << 8, c);
    c = sel(quad != 99, QUADS | quad << 4, c);
    c
}
/// The same for five cards of one suit (their ranks are distinct).
pub fn classify_flush(mask: u32) -> u32 {
    let high = straight_high(mask);
    sel(high != 99, SFLUSH | high << 4, FLUSH | top_rank(mask) << 4)
}
pub fn classify(h: &[SymCard]) -> u32 {
    let (key, mask) = roots(h);
    sel(all_one_suit(h), classify_flush(mask), classify_mixed(key))
}

/// The crate's answer in the same form.
pub fn pack(c: EvalClass) -> u32 {
    let p = |cat: u32, a: Rank, b: u32| cat | rank_no(a) << 4 | b;
    match c {
        EvalClass::HighCard { high_rank } => p(HIGH, high_rank, 0),
        EvalClass::Pair { pair } => p(PAIR, pair, 0),
        EvalClass::TwoPair { first_pair, second_pair } => p(TWO_PAIR, first_pair, rank_no(second_pair) << 8),
        EvalClass::ThreeOfAKind { trips } => p(TRIPS, trips, 0),
        EvalClass::Straight { high_rank } => p(STRAIGHT, high_rank, 0),
        EvalClass::Flush { high_rank } => p(FLUSH, high_rank, 0),
        EvalClass::FullHouse { trips, pair } => p(FULL, trips, rank_no(pair) << 8),
        EvalClass::FourOfAKind { quads } => p(QUADS, quads, 0),
        EvalClass::StraightFlush { high_rank } => p(SFLUSH, high_rank, 0),
    }
}
/// 0 for Two .. 12 for Ace, without using the crate's own numbering.
pub fn rank_no(r: Rank) -> u32 {
    match r { Rank::Two => 0, Rank::Three => 1, Rank::Four => 2, Rank::Five => 3, Rank::Six => 4, Rank::Seven => 5, Rank::Eight => 6, Rank::Nine => 7, Rank::Ten => 8, Rank::Jack => 9, Rank::Queen => 10, Rank::King => 11, Rank::Ace => 12 }
}
pub fn suit_no(s: Suit) -> u32 { match s { Suit::Clubs => 0, Suit::Diamonds => 1, Suit::Hearts => 2, Suit::Spades => 3 } }

/// Strength of five cards of mixed suits: category, then the ranks by how often they occur and how high they are.
pub fn score_mixed(key: u64) -> u32 {
    let cat = classify_mixed(key) & 15;
    let mut mask = 0u32;
    for r in 0..13 { mask |= ((count(key, r) > 0) as u32) << r; }
    let mut k = 0u32;
    for n in [4, 3, 2, 1] { for r in (0..13).rev() { k = sel(count(key, r) == n, k << 4 | r, k); } }
    let high = straight_high(mask);
    cat << 24 | sel(cat == STRAIGHT, high, k)
}
/// The same for five cards of one suit.
pub fn score_flush(mask: u32) -> u32 {
    let high = straight_high(mask);
    let mut k = 0u32;
    for r in (0..13).rev() { k = sel(mask >> r & 1 == 1, k << 4 | r, k); }
    sel(high != 99, SFLUSH << 24 | high, FLUSH << 24 | k)
}
/// Expected position on the ladder.
pub fn position(l: &Ladder, h: &[SymCard]) -> u32 {
    let (key, mask) = roots(h);
    join(sel(all_one_suit(h), l.find(score_flush(mask)), l.find(score_mixed(key))))
}
/// Tells the executor the value sets of the hand's rank multiset and rank set; of a hand of distinct cards no five have one rank.
pub fn roots(h: &[SymCard]) -> (u64, u32) {
    let key = root64(rank_key(h));
    let mask = root(rank_mask(h));
    let mut five = false;
    for r in 0..13 { five |= count(key, r) >= 5; }
    fact(!five);
    (key, mask)
}
pub fn score(h: &[SymCard]) -> u32 {
    let (key, mask) = roots(h);
    sel(all_one_suit(h), score_flush(mask), score_mixed(key))
}
