pub mod lsx;
pub mod refm;
pub mod util;
mod eval5;
mod laws;
mod hands;
mod text;
mod lists;
#[cfg(feature = "example")]
mod jacks;
macro_rules! entries { ($($f:path as $n:ident),* $(,)?) => {
    $(#[no_mangle] pub extern "C" fn $n() { $f() })*
    pub static ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*];
} }
entries! {
    eval5::c01 as h_c01, lists::c21_thread as h_c21_thread, hands::c27 as h_c27, hands::c27_other as h_c27_other, hands::c22_long as h_c22_long, text::c18_long as h_c18_long, text::c15_long as h_c15_long,
    eval5::c03 as h_c03, eval5::c03_some as h_c03_some, eval5::c01_some as h_c01_some, hands::c04_some as h_c04_some, lists::c19_some as h_c19_some, hands::c22_some as h_c22_some, hands::c22_default_some as h_c22_default_some, eval5::c02 as h_c02, eval5::c02_ladder as h_c02_ladder,
    laws::c07_pairs as h_c07_pairs, laws::c07_triples as h_c07_triples, laws::c08 as h_c08, hands::c08_more as h_c08_more,
    laws::c09 as h_c09, laws::c09_hand as h_c09_hand, laws::c10_pairs as h_c10_pairs, laws::c10_steps as h_c10_steps, laws::c10_values as h_c10_values, hands::c10_hand as h_c10_hand,
    hands::c04 as h_c04, hands::c05 as h_c05, hands::c24 as h_c24, hands::c06_dup as h_c06_dup, hands::c06_distinct as h_c06_distinct, hands::c06_long as h_c06_long,
    hands::c22 as h_c22, hands::c22_default as h_c22_default, hands::c22_errors as h_c22_errors,
    text::c12 as h_c12, text::c13 as h_c13, text::c13_triples as h_c13_triples, text::c14 as h_c14, text::c14_chars as h_c14_chars,
    text::c15 as h_c15, text::c15_chars as h_c15_chars, text::c16 as h_c16, text::c18 as h_c18, text::c11_class as h_c11_class, text::c11 as h_c11,
    lists::c17_list as h_c17_list, lists::c17_more as h_c17_more, lists::c17_words as h_c17_words, lists::c20 as h_c20, lists::c21 as h_c21, lists::c23 as h_c23,
    lists::c19 as h_c19, lists::c19_sym as h_c19_sym, lists::c19_size as h_c19_size,
}
#[cfg(feature = "example")]
pub static MORE: &[(&str, extern "C" fn())] = &[("h_c25_payout", h_c25_payout), ("h_c25_swap", h_c25_swap)];
#[cfg(not(feature = "example"))]
pub static MORE: &[(&str, extern "C" fn())] = &[];
#[cfg(feature = "example")]
#[no_mangle]
pub extern "C" fn h_c25_payout() { jacks::c25_payout() }
#[cfg(feature = "example")]
#[no_mangle]
pub extern "C" fn h_c25_swap() { jacks::c25_swap() }
