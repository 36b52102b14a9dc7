//! Cards as values and as text.
use super::laws::{hash, sym_class};
use super::lsx::*;
use super::refm::*;
use super::util::*;
use poker::*;
use std::cmp::Ordering;
use std::convert::TryFrom;
use std::fmt::Write;

/// Characters of the ranks and suits, in the order of the reference's numbers.
pub const RANK_CHARS: [u32; 13] = ['2' as u32, '3' as u32, '4' as u32, '5' as u32, '6' as u32, '7' as u32, '8' as u32, '9' as u32, 'T' as u32, 'J' as u32, 'Q' as u32, 'K' as u32, 'A' as u32];
pub const SUIT_CHARS: [u32; 4] = ['c' as u32, 'd' as u32, 'h' as u32, 's' as u32];
const PRETTY: [char; 4] = ['\u{2663}', '\u{2666}', '\u{2665}', '\u{2660}'];
/// Number of a rank character, or 99; without branches.
pub fn rank_at(c: u32) -> u32 { let mut n = 99; for i in 0..13 { let m = ((c == RANK_CHARS[i]) as u32).wrapping_neg(); n = (i as u32 & m) | (n & !m); } n }
pub fn suit_at(c: u32) -> u32 { let mut n = 99; for i in 0..4 { let m = ((c == SUIT_CHARS[i]) as u32).wrapping_neg(); n = (i as u32 & m) | (n & !m); } n }
/// Any character from lo to hi.
pub fn sym_char(id: u32, lo: u32, hi: u32) -> char {
    let v = sym(id, lo, hi);
    assume((v < 0xD800) | (v > 0xDFFF));
    unsafe { char::from_u32_unchecked(v) }
}
pub const TOP: u32 = 0x10FFFF;
/// A string of the given characters, without allocation.
#[derive(Clone, Copy)]
pub struct Text { pub b: [u8; 448], pub n: usize }
impl Text {
    pub fn new() -> Self { Text { b: [0; 448], n: 0 } }
    pub fn push(&mut self, c: char) { let k = c.encode_utf8(&mut self.b[self.n..]).len(); self.n += k; }
    pub fn of(c: &[char]) -> Self { let mut t = Self::new(); for x in c { t.push(*x) } t }
    pub fn str(&self) -> &str { unsafe { std::str::from_utf8_unchecked(&self.b[..self.n]) } }
    pub fn add(&mut self, s: &str) -> &mut Self { for x in s.bytes() { self.b[self.n] = x; self.n += 1 } self }
    pub fn add_char(&mut self, c: char) -> &mut Self { self.push(c); self }
    /// Same bytes, without branches on them.
    pub fn is(&self, s: &str) -> bool {
        let s = s.as_bytes();
        if s.len() != self.n { return false; }
        let mut e = true;
        for i in 0..self.n { e &= s[i] == self.b[i]; }
        e
    }
}
impl Write for Text { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.add(s); Ok(()) } }
fn shown(x: &dyn std::fmt::Display) -> Text {
    let mut t = Text::new();
    check(write!(t, "{}", x).is_ok(), 80);
    let mut u = Text::new();
    check(write!(u, "{:#}", x).is_ok(), 81);
    check(t.is(u.str()), 82);
    t
}

pub fn c12() {
    let primes = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41];
    let (a, b) = (sym_card(0), sym_card(1));
    let (x, y) = (a.card(), b.card());
    cover(1);
    check(rank_no(x.rank()) == a.r, 1);
    check(suit_no(x.suit()) == a.s, 2);
    let u = x.unique_integer();
    let suit_bit = 1 << (15 - a.s); // clubs 15, diamonds 14, hearts 13, spades 12
    check(u == 1 << (16 + a.r) | suit_bit | (a.r as i32) << 8 | primes[a.r as usize], 3);
    let e = same(a, b);
    check((x == y) == e, 4);
    check((x != y) == !e, 5);
    check((u == y.unique_integer()) == e, 6);
    check(!e | (hash(&x) == hash(&y)), 7);
    check(Card::new(x.rank(), x.suit()) == x, 8);
    check(x.clone() == x, 9);
}

pub fn c13() {
    let (a, b) = (sym_card(0), sym_card(1));
    let (x, y) = (a.card(), b.card());
    let (r, q) = (rank_of(a.r), rank_of(b.r));
    cover(1);
    let o = |o: Ordering| o as i8 as i32;
    let want = (a.r > b.r) as i32 - (a.r < b.r) as i32;
    check((o(r.cmp(&q)) == want) & (r.partial_cmp(&q) == Some(r.cmp(&q))), 1);
    check(((r < q) == (want < 0)) & ((r > q) == (want > 0)) & ((r == q) == (want == 0)) & ((r <= q) == (want <= 0)) & ((r >= q) == (want >= 0)) & ((r != q) == (want != 0)), 2);
    check(!(r == q) | (hash(&r) == hash(&q)), 3);
    let c = o(x.cmp(&y));
    check((want == 0) | (c == want), 4);
    check(match x.partial_cmp(&y) { Some(p) => o(p) == c, None => false }, 5);
    check(((x < y) == (c < 0)) & ((x > y) == (c > 0)) & ((x <= y) == (c <= 0)) & ((x >= y) == (c >= 0)), 6);
    check(o(y.cmp(&x)) == -c, 7);
    check(x.cmp(&x) == Ordering::Equal, 8);
    // the recorded finding: different suits of one rank compare as equal
    let tie = (a.r == b.r) & (a.s != b.s) & (c == 0);
    if tie { cover(900); }
    check(((c == 0) == (x == y)) | tie, 9);
    let m = x.max(y);
    check(((m == x) | (m == y)) & (m >= x) & (m >= y), 10);
}
pub fn c13_triples() {
    let (x, y, z) = (sym_card(0).card(), sym_card(1).card(), sym_card(2).card());
    cover(1);
    check(!((x < y) & (y < z)) | (x < z), 1);
    check(!((x <= y) & (y <= z)) | (x <= z), 2);
    let c = |a: Card, b: Card| a.cmp(&b) == Ordering::Equal;
    check(!(c(x, y) & c(y, z)) | c(x, z), 3);
    let r = |c: Card| c.rank();
    check(!((r(x) < r(y)) & (r(y) < r(z))) | (r(x) < r(z)), 4);
}

/// Which strings parse, and to what: all strings of n characters, in the given range.
pub fn c14() {
    let c: Vec<char> = (0..param(0)).map(|i| sym_char(i, 0, param(1))).collect();
    let t = Text::of(&c);
    let (r, s) = if c.len() == 2 { (rank_at(c[0] as u32), suit_at(c[1] as u32)) } else { (99, 99) };
    let good = (r != 99) & (s != 99);
    match t.str().parse::<Card>() {
        Ok(k) => { cover(1); check(good, 1); check(rank_no(k.rank()) == r, 2); check(suit_no(k.suit()) == s, 3); check(k == Card::new(k.rank(), k.suit()), 4); }
        Err(_) => { cover(2); check(!good, 5); }
    }
}
pub fn c14_chars() {
    let (a, b) = (sym_char(0, 0, TOP), sym_char(1, 0, TOP));
    let (r, s) = (rank_at(a as u32), suit_at(b as u32));
    cover(1);
    match Rank::try_from(a) { Ok(x) => check(rank_no(x) == r, 1), Err(_) => check(r == 99, 2) }
    match Suit::try_from(b) { Ok(x) => check(suit_no(x) == s, 3), Err(_) => check(s == 99, 4) }
    match Card::try_from_chars(a, b) {
        Ok(k) => { cover(2); check((rank_no(k.rank()) == r) & (suit_no(k.suit()) == s), 5); }
        Err(_) => { cover(3); check((r == 99) | (s == 99), 6); }
    }
}
/// What is wrong with a string.
pub fn c15() {
    let c: Vec<char> = (0..param(0)).map(|i| sym_char(i, 0, param(1))).collect();
    let t = Text::of(&c);
    let two = c.len() == 2;
    let (r, s) = if two { (rank_at(c[0] as u32), suit_at(c[1] as u32)) } else { (99, 99) };
    match t.str().parse::<Card>() {
        Ok(_) => {}
        Err(ParseCardError::InvalidLength { original_input }) => { cover(1); check(!two, 1); check(t.is(&original_input), 2); }
        Err(ParseCardError::InvalidRank { original_input, incorrect_char }) => { cover(2); check(two, 3); check(r == 99, 4); check(t.is(&original_input), 5); check(incorrect_char == c[0], 6); }
        Err(ParseCardError::InvalidSuit { original_input, incorrect_char }) => { cover(3); check(two, 7); check((r != 99) & (s == 99), 8); check(t.is(&original_input), 9); check(incorrect_char == c[1], 10); }
    }
}
/// Strings of param(0) > 2 characters, cards' characters first, the one at place param(1) arbitrary.
pub fn c15_long() {
    let n = param(0);
    let mut o = String::with_capacity(4 * n as usize + 8);
    for i in 0..n { o.push(if i == param(1) { sym_char(0, 0, param(2)) } else { ['A', 's', 'K', 'h', ' ', '2', 'c', 'T'][(i % 8) as usize] }); }
    cover(1);
    match o.parse::<Card>() {
        Err(ParseCardError::InvalidLength { original_input }) => check(original_input == o, 1),
        _ => check(false, 2),
    }
}
pub fn c15_chars() {
    let (a, b) = (sym_char(0, 0, TOP), sym_char(1, 0, TOP));
    let (r, s) = (rank_at(a as u32), suit_at(b as u32));
    match Rank::try_from(a) { Ok(_) => {} Err(x) => { check(x == a, 1); check(r == 99, 2) } }
    match Suit::try_from(b) { Ok(_) => {} Err(x) => { check(x == b, 3); check(s == 99, 4) } }
    match Card::try_from_chars(a, b) {
        Ok(_) => {}
        Err(ParseCardError::InvalidLength { .. }) => check(false, 5),
        Err(ParseCardError::InvalidRank { original_input, incorrect_char }) => { cover(1); check(r == 99, 6); check(incorrect_char == a, 7); check(Text::of(&[a]).is(&original_input), 8); }
        Err(ParseCardError::InvalidSuit { original_input, incorrect_char }) => { cover(2); check((r != 99) & (s == 99), 9); check(incorrect_char == b, 10); check(Text::of(&[b]).is(&original_input), 11); }
    }
}
pub fn c16() {
    let a = sym_card(0);
    let x = a.card();
    let (r, s) = (x.rank(), x.suit());
    cover(1);
    check(r.as_char() as u32 == RANK_CHARS[a.r as usize], 1);
    check(s.as_char() as u32 == SUIT_CHARS[a.s as usize], 2);
    check(s.as_pretty_char() == PRETTY[a.s as usize], 3);
    check(Rank::try_from(r.as_char()) == Ok(r), 4);
    check(Suit::try_from(s.as_char()) == Ok(s), 5);
    let t = x.rank_suit_string();
    check(Text::of(&[r.as_char(), s.as_char()]).is(&t), 6);
    check(t.parse::<Card>() == Ok(x), 7);
    check(Card::try_from_chars(r.as_char(), s.as_char()) == Ok(x), 8);
    let mut want = Text::new();
    want.add("[ ").add_char(r.as_char()).add_char(PRETTY[a.s as usize]).add(" ]");
    check(want.is(shown(&x).str()), 9);
    check(Text::of(&[r.as_char()]).is(shown(&r).str()), 10);
    check(Text::of(&[PRETTY[a.s as usize]]).is(shown(&s).str()), 11);
}
/// The text of a parse error with arbitrary contents of n characters.
pub fn c18() {
    let c: Vec<char> = (0..param(0)).map(|i| sym_char(i, 0, param(1))).collect();
    let t = Text::of(&c);
    let bad = sym_char(20, 0, param(1));
    let s = || t.str().to_string();
    cover(1);
    let head = |w: &mut Text| { w.add("Error parsing input '").add(t.str()).add("' as a Card: "); };
    let mut w = Text::new();
    head(&mut w);
    w.add("Found input of length ").add_char((b'0' + c.len() as u8) as char).add(", expected 2");
    check(w.is(shown(&ParseCardError::InvalidLength { original_input: s() }).str()), 1);
    let mut w = Text::new();
    head(&mut w);
    w.add("Invalid rank character '").add_char(bad).add("', expected one of [23456789TJQKA]");
    check(w.is(shown(&ParseCardError::InvalidRank { original_input: s(), incorrect_char: bad }).str()), 2);
    let mut w = Text::new();
    head(&mut w);
    w.add("Invalid suit character '").add_char(bad).add("', expected one of [chsd]");
    check(w.is(shown(&ParseCardError::InvalidSuit { original_input: s(), incorrect_char: bad }).str()), 3);
}
/// Long texts: param(0) characters of one, two, three and four bytes in turn, the one at place param(1) arbitrary.
pub fn c18_long() {
    let n = param(0);
    let mut o = String::with_capacity(400);
    for i in 0..n { o.push(if i == param(1) { sym_char(0, 0, param(2)) } else { ['A', 's', 'é', '♠', '😀', '\'', ' ', '\n'][(i % 8) as usize] }); }
    cover(1);
    let mut w = Text::new();
    w.add("Error parsing input '").add(&o).add("' as a Card: Found input of length ");
    if n > 99 { w.add_char((b'0' + (n / 100) as u8) as char); }
    if n > 9 { w.add_char((b'0' + (n / 10 % 10) as u8) as char); }
    w.add_char((b'0' + (n % 10) as u8) as char).add(", expected 2");
    check(w.is(shown(&ParseCardError::InvalidLength { original_input: o.clone() }).str()), 1);
    let bad = '\u{301}';
    let mut w = Text::new();
    w.add("Error parsing input '").add(&o).add("' as a Card: Invalid rank character '").add_char(bad).add("', expected one of [23456789TJQKA]");
    check(w.is(shown(&ParseCardError::InvalidRank { original_input: o.clone(), incorrect_char: bad }).str()), 2);
    let mut w = Text::new();
    w.add("Error parsing input '").add(&o).add("' as a Card: Invalid suit character '").add_char(bad).add("', expected one of [chsd]");
    check(w.is(shown(&ParseCardError::InvalidSuit { original_input: o, incorrect_char: bad }).str()), 3);
}
const ONE: [&str; 13] = ["two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "jack", "queen", "king", "ace"];
const MANY: [&str; 13] = ["twos", "threes", "fours", "fives", "sixes", "sevens", "eights", "nines", "tens", "jacks", "queens", "kings", "aces"];
/// Expected words for a packed class.
fn words(p: u32) -> Text {
    let mut t = Text::new();
    let (r, q) = ((p >> 4 & 15) as usize, (p >> 8 & 15) as usize);
    match p & 15 {
        HIGH => t.add("High card, ").add(ONE[r]),
        PAIR => t.add("Pair, ").add(MANY[r]),
        TWO_PAIR => t.add("Two pair, ").add(MANY[r]).add(" and ").add(MANY[q]),
        TRIPS => t.add("Three of a kind, ").add(MANY[r]),
        STRAIGHT => t.add("Straight, ").add(ONE[r]).add("-high"),
        FLUSH => t.add("Flush, ").add(ONE[r]).add("-high"),
        FULL => t.add("Full house, ").add(MANY[r]).add(" over ").add(MANY[q]),
        QUADS => t.add("Four of a kind, ").add(MANY[r]),
        _ => if r == 12 { t.add("Royal flush") } else { t.add("Straight flush, ").add(ONE[r]).add("-high") },
    };
    t
}
pub fn c11_class() {
    // one path per category and ranks: the texts have different lengths
    for i in 0..3 { split(sym(i, 0, if i == 0 { 8 } else { 12 })); }
    let (m, x) = sym_class(0);
    cover(1);
    check(words(m >> 8 | (m >> 4 & 15) << 4 | (m & 15) << 8).is(shown(&x).str()), 1);
}
/// An evaluation prints as its class, whatever hand it came from.
pub fn c11() {
    let ev = Evaluator::new();
    let mut l = ladder(&ev);
    l.any();
    let (_, e) = l.sym(0);
    let p = split(pack(e.class()));
    cover(1);
    check(words(p).is(shown(&e).str()), 1);
}
