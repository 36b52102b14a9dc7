//! The video-poker example, as a module.
use super::lsx::*;
use super::laws::sym_class;
use super::util::*;
use poker::*;

#[allow(unused)]
mod example {
    include!("/repo/examples/jacks-or-better.rs");
    pub mod open {
        pub fn pay(wager: usize, class: poker::EvalClass) -> usize { super::payout(wager, class) }
        pub fn swap(swaps: Vec<usize>, deck: &mut Vec<poker::Card>, hand: &mut Vec<poker::Card>) { super::swap_cards(swaps, deck, hand, &mut rand::thread_rng()) }
    }
}

pub fn c25_payout() {
    let wager = sym(10, 0, 5);
    let (m, x) = sym_class(0);
    let (category, first) = (m >> 8, m >> 4 & 15);
    let times = [0, 0, 2, 3, 4, 6, 9, 25, 50][category as usize];
    let times = if category == 1 && first >= 9 { 1 } else if category == 8 && first == 12 { if wager == 5 { 800 } else { 250 } } else { times };
    let p = example::open::pay(wager as usize, x);
    cover(1);
    check(p as u64 == times as u64 * wager as u64, 1);
}
/// As many cards as the parameter says, at any places and in any order, are exchanged for cards of the deck.
pub fn c25_swap() {
    let k = param(0);
    let mut deck: Vec<Card> = deck::generate().collect();
    let mut hand: Vec<Card> = deck.drain(..5).collect();
    let old = hand.clone();
    // any k different places in any order
    let p = sym(0, 0, 119);
    let (mut left, mut q, mut swaps, mut kept) = ([0usize, 1, 2, 3, 4], p, Vec::new(), [true; 5]);
    for i in 0..k as usize {
        let d = q % (5 - i as u32);
        q /= 5 - i as u32;
        let at = left[d as usize];
        left[d as usize] = left[4 - i];
        swaps.push(at);
        kept[at] = false;
    }
    example::open::swap(swaps, &mut deck, &mut hand);
    cover(1);
    check(hand.len() == 5 && deck.len() == 47, 1);
    let x = sym_card(100).card();
    let mut n = 0;
    for c in hand.iter().chain(&deck) { n += (*c == x) as u32; }
    check(n == 1, 2);
    for i in 0..5 { if kept[i] { check(hand[i] == old[i], 3); } }
}
