//! Several cards at once: lists, decks, joined slices, and errors about them.
use super::lsx::*;
use super::text::{sym_char, Text};
use super::util::*;
use poker::*;
use std::fmt::Write;

type Res = Result<Card, ParseCardError>;
fn white(c: u32) -> bool {
    (c >= 9) & (c <= 13) | (c == 32) | (c == 0x85) | (c == 0xA0) | (c == 0x1680) | (c >= 0x2000) & (c <= 0x200A) | (c == 0x2028) | (c == 0x2029) | (c == 0x202F) | (c == 0x205F) | (c == 0x3000)
}
/// Strings of two characters each, rank and suit nearly arbitrary, so that every item may be a card, have a bad rank or a bad suit; or of one or three.
fn pool_char(id: u32) -> char { POOL[split(sym(id, 0, POOL.len() as u32 - 1)) as usize] }
/// Cards' characters, characters like them, white space of all widths, characters like white space.
static POOL: [char; 40] = ['A', 's', '2', 'c', 'T', 'h', 'd', '9', 'K', 'x', 'a', 'S', '1', '0', ' ', '\t', '\n', '\u{b}', '\r', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}', '\u{200a}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{205f}', '\u{3000}',
    '\u{1c}', '\u{1f}', '\0', '\u{200b}', '\u{180e}', '\u{feff}', '\u{e9}', '\u{2660}', '\u{1f0a1}', '\u{10ffff}', ','];
fn items(n: u32, lens: u32) -> Vec<Text> {
    (0..n).map(|i| {
        let k = lens / 10u32.pow(i) % 10;
        let c: Vec<char> = (0..k).map(|j| if i > 0 && param(2) > 0 { ['A', 's', 'x'][(i + j) as usize % 3] } else { if param(3) == 0 { pool_char(4 * i + j) } else { sym_char(4 * i + j, 0, param(3)) } }).collect();
        Text::of(&c)
    }).collect()
}
fn alone(t: &[Text]) -> Vec<Res> { t.iter().map(|x| x.str().parse()).collect() }
/// n strings (their lengths are the digits of the second parameter), however the iterator is consumed.
pub fn c17_list() {
    let t = items(param(0), param(1));
    let n = t.len();
    let want = alone(&t);
    let strs: Vec<&str> = t.iter().map(|x| x.str()).collect();
    cover(1);
    // one by one, with the sizes announced on the way
    let mut it = Card::parse_to_iter(&strs);
    for i in 0..n {
        let (lo, hi) = it.size_hint();
        check(lo <= n - i && hi.map_or(true, |h| h >= n - i), 1);
        match it.next() { Some(r) => check(r == want[i], 2), None => check(false, 3) }
    }
    check(it.next().is_none(), 4);
    let all: Vec<Res> = Card::parse_to_iter(&strs).collect();
    check(all == want, 5);
    let mut i = 0;
    let k = Card::parse_to_iter(&strs).fold(0, |a, r| { check(i < n && r == want[i], 6); i += 1; a + 1 });
    check(k == n, 7);
    check(Card::parse_to_iter(strs.iter()).count() == n, 8);
    let mut i = 0;
    for r in cards!(strs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ").as_str()) { if t.iter().all(|x| x.n > 0 && !x.str().chars().any(|c| white(c as u32))) { check(i < n && r == want[i], 9); } i += 1; }
    if n == 2 { check(cards!(strs[0], strs[1]).collect::<Vec<_>>() == want, 14); }
    if n == 3 { check(cards!(strs[0], strs[1], strs[2]).collect::<Vec<_>>() == want, 15); }
    // collecting
    match Card::parse_to_iter(&strs).try_collect::<Vec<Card>>() {
        Ok(v) => { check(v.len() == n, 10); for i in 0..n { check(want[i] == Ok(v[i]), 11); } }
        Err(e) => match want.iter().find(|r| r.is_err()) { Some(Err(w)) => check(e == *w, 12), _ => check(false, 13) },
    }
}
/// From the other end, and skipping.
pub fn c17_more() {
    let t = items(param(0), param(1));
    let n = t.len();
    let want = alone(&t);
    let strs: Vec<String> = t.iter().map(|x| x.str().to_string()).collect();
    cover(1);
    if n > 1 { check(Card::parse_to_iter(&strs).nth(1).as_ref() == Some(&want[1]), 3); }
    check(Card::parse_to_iter(&strs).last().as_ref() == want.last(), 4);
    let mut it = Card::parse_to_iter(strs);
    let _ = it.next();
    check(it.by_ref().count() == n - 1, 5);
    check(it.next().is_none(), 6);
}
/// One string of n arbitrary characters: its words are the items.
pub fn c17_words() {
    let n = param(0);
    let c: Vec<char> = (0..n).map(|i| {
        let k = param(2 + i);
        // kind of the character: anything, anything up to the bound, a space of some kind, or a fixed letter
        if k == 1 { sym_char(i, 0, param(1)) } else if k == 0 { pool_char(i) } else { char::from_u32(k).unwrap() }
    }).collect();
    let whole = Text::of(&c);
    let mut words: Vec<Text> = Vec::with_capacity(16);
    let mut open = false;
    for x in &c {
        if white(*x as u32) { open = false; } else { if !open { words.push(Text::new()); open = true; } let k = words.len() - 1; words[k].push(*x); }
    }
    cover(1 + words.len() as u32);
    let got: Vec<Res> = cards!(whole.str()).collect();
    check(got.len() == words.len(), 1);
    for i in 0..got.len().min(words.len()) { check(got[i] == words[i].str().parse(), 2); }
    match cards!(whole.str()).try_collect::<Vec<Card>>() {
        Ok(v) => { check(v.len() == got.len(), 3); for i in 0..v.len() { check(got[i] == Ok(v[i]), 4); } }
        Err(e) => match got.iter().find(|r| r.is_err()) { Some(Err(w)) => check(e == *w, 5), _ => check(false, 6) },
    }
}
/// The deck holds any given card exactly once, and is the same every time however it is taken.
pub fn c20() {
    let x = sym_card(0).card();
    let d: Vec<Card> = deck::generate().collect();
    cover(1);
    check(d.len() == 52, 1);
    let mut n = 0;
    for c in &d { n += (*c == x) as u32; }
    check(n == 1, 2);
    let p = sym(9, 0, 51) as usize;
    let e: Vec<Card> = deck::generate().collect();
    check(e.len() == 52 && d[p] == e[p], 3);
    let mut it = deck::generate();
    let mut f = Vec::with_capacity(52);
    while let Some(c) = it.next() {
        let (lo, hi) = it.size_hint();
        f.push(c);
        check(lo <= 52 - f.len() && hi.map_or(true, |h| h >= 52 - f.len()), 4);
        if f.len() > 52 { break; }
    }
    check(it.next().is_none(), 5);
    check(f.len() == 52 && f[p] == d[p], 6);
    let mut g = Vec::with_capacity(64);
    deck::generate().for_each(|c| g.push(c));
    check(g.len() == 52 && g[p] == d[p], 7);
    check(deck::generate().count() == 52, 8);
    let k = split(sym(10, 0, 51)) as usize;
    let mut it = deck::generate();
    check(it.nth(k) == Some(d[k]) && d[k].rank() as u32 == e[k].rank() as u32 && d[k].suit() as u32 == e[k].suit() as u32, 9);
    check(it.next() == d.get(k + 1).copied(), 10);
    check(deck::generate().last() == Some(d[51]), 11);
    check(deck::generate().skip(k).step_by(7).collect::<Vec<_>>() == d[k..].iter().step_by(7).copied().collect::<Vec<_>>(), 12);
}
/// Numbers drawn from it: arbitrary for draws first..first+len, and a fixed sequence elsewhere.
struct Draws { at: u32, first: u32, len: u32, lcg: u64, mask: u64 }
impl Draws { fn new() -> Self { Draws { at: 0, first: param(0), len: param(1), lcg: param(2) as u64, mask: param(3) as u64 } } }
impl rand::RngCore for Draws {
    fn next_u32(&mut self) -> u32 {
        self.lcg = self.lcg.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let k = self.at;
        self.at += 1;
        if self.at > 400 { check(false, 70); assume(false); }
        if k >= self.first && k - self.first < self.len { sym(k - self.first, 0, self.mask as u32) << if param(4) == 1 { 0 } else { 32 - self.mask.count_ones() } } else { (self.lcg >> 33) as u32 }
    }
    // one draw too, arbitrary in its top (or low) bits within the window
    fn next_u64(&mut self) -> u64 {
        let a = self.next_u32() as u64;
        self.lcg = self.lcg.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let b = self.lcg >> 33;
        if param(4) == 1 { b << 32 | a } else { a << 32 | b }
    }
    fn fill_bytes(&mut self, b: &mut [u8]) { for x in b { *x = self.next_u32() as u8; } }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(b); Ok(()) }
}
pub fn c21() {
    let d = deck::shuffled_with(&mut Draws::new());
    cover(1);
    check(d.len() == 52, 1);
    let x = sym_card(100).card();
    let mut n = 0;
    for c in &d { n += (*c == x) as u32; }
    check(n == 1, 2);
    let e = deck::shuffled_with(&mut Draws::new());
    check(e.len() == 52, 3);
    let mut eq = true;
    for i in 0..52 { eq &= d[i] == e[i]; }
    check(eq, 4);
}
/// Slices of the given lengths, all cards arbitrary.
pub fn c23() {
    let l = [param(0) as usize, param(1) as usize, param(2) as usize, param(3) as usize];
    let mut all = Vec::with_capacity(64);
    for i in 0..l.iter().sum::<usize>() { all.push(sym_card(i as u32).card()); }
    let (a, r) = all.split_at(l[0]);
    let (b, r) = r.split_at(l[1]);
    let (c, d) = r.split_at(l[2]);
    cover(1);
    let same = |x: &[Card], y: &[Card], code: u32| { check(x.len() == y.len(), code); for i in 0..x.len().min(y.len()) { check(x[i] == y[i], code + 1); } };
    same(&box_cards!(a, b, c, d), &all, 1);
    same(&box_cards!(a, b), &all[..l[0] + l[1]], 3);
    same(&box_cards!(a.to_vec(), b.to_vec(), c), &all[..l[0] + l[1] + l[2]], 5);
    same(&box_cards!(box_cards!(a, b), box_cards!(c, d)), &all, 7);
}
/// The text of an error about n cards, chosen from a few.
pub fn c19() {
    let n = param(0);
    let pool = param(1);
    let fixed = [(12, 3), (0, 0), (12, 0), (8, 2), (3, 1)];
    let idx: Vec<u32> = (0..n).map(|i| split(sym(i, 0, pool - 1))).collect();
    let cs: Vec<Card> = idx.iter().map(|i| { let (r, s) = fixed[*i as usize]; Card::new(rank_of(r), suit_of(s)) }).collect();
    cover(1);
    let dups: Vec<u32> = (0..pool).filter(|p| idx.iter().filter(|i| *i == p).count() > 1).collect();
    if dups.is_empty() { return; }
    let e = EvalError::CardsNotUnique(cs);
    c19_text(&e, &dups.iter().map(|p| { let (r, s) = fixed[*p as usize]; Text::of(&[rank_of(r).as_char(), suit_of(s).as_char()]) }).collect::<Vec<_>>());
}
fn c19_text(e: &EvalError, dups: &[Text]) {
    let mut t = Text::new();
    check(write!(t, "{}", e).is_ok(), 1);
    let head = "Cannot evaluate a poker hand with a set of cards that are not unique. Cards duplicated at least once: ";
    check(t.n == head.len() + 3 * dups.len() - 1, 2);
    let mut h = true;
    for (i, b) in head.bytes().enumerate() { h &= t.b[i] == b; }
    check(h, 3);
    // the words after it are the names, in some order, each once (there are as many)
    for d in dups {
        let mut some = false;
        for k in 0..dups.len() { let p = head.len() + 3 * k; some |= (t.b[p] == d.b[0]) & (t.b[p + 1] == d.b[1]); }
        check(some, 4);
    }
    for k in 1..dups.len() { check(t.b[head.len() + 3 * k - 1] == b' ', 5); }
    for _ in 0..2 {
        let mut u = Text::new();
        check(write!(u, "{}", e).is_ok(), 6);
        check(t.is(u.str()), 7);
    }
}
/// The same with arbitrary cards: the pattern of which places are equal is given digit by digit.
pub fn c19_sym() {
    let n = param(0) as usize;
    let pat: Vec<usize> = (0..n).map(|i| (param(1) / 10u32.pow(i as u32) % 10) as usize).collect();
    let k = pat.iter().max().unwrap() + 1;
    let h = sym_hands(0, k as u32);
    let cs: Vec<Card> = pat.iter().map(|i| h[*i].card()).collect();
    cover(1);
    let dups: Vec<Text> = (0..k).filter(|p| pat.iter().filter(|i| *i == p).count() > 1).map(|p| Text::of(&[rank_of(h[p].r).as_char(), suit_of(h[p].s).as_char()])).collect();
    c19_text(&EvalError::CardsNotUnique(cs), &dups);
}
/// Some of the cards given, at most two arbitrary; the pattern in two parts of up to nine digits.
pub fn c19_some() {
    let k = param(0);
    let h = some_hands(0, k);
    let n = param(20) as usize;
    let pat: Vec<usize> = (0..n).map(|i| (param(21 + i as u32 / 9) / 10u32.pow(i as u32 % 9) % 10) as usize).collect();
    let cs: Vec<Card> = pat.iter().map(|i| h[*i].card()).collect();
    cover(1);
    let dups: Vec<Text> = (0..k as usize).filter(|p| pat.iter().filter(|i| *i == p).count() > 1).map(|p| Text::of(&[rank_of(h[p].r).as_char(), suit_of(h[p].s).as_char()])).collect();
    c19_text(&EvalError::CardsNotUnique(cs), &dups);
}
pub fn c19_size() {
    let n = split(sym(0, 0, param(0))) as usize;
    cover(1);
    let mut t = Text::new();
    check(write!(t, "{}", EvalError::InvalidHandSize(n)).is_ok(), 1);
    let mut w = Text::new();
    w.add("Cannot evaluate a poker hand with a set of less than 5 cards. Number of cards received: ");
    let mut d = [0u8; 20];
    let mut k = 20;
    let mut v = n;
    loop { k -= 1; d[k] = b'0' + (v % 10) as u8; v /= 10; if v == 0 { break; } }
    for x in &d[k..] { w.push(*x as char); }
    check(w.is(t.str()), 2);
}
/// The shuffle with the thread's own generator (seeded with fixed bytes).
pub fn c21_thread() {
    let x = sym_card(100).card();
    for _ in 0..2 {
        let d = deck::shuffled();
        cover(1);
        check(d.len() == 52, 1);
        let mut n = 0;
        for c in &d { n += (*c == x) as u32; }
        check(n == 1, 2);
    }
}
