From 16bb311fca7bf6820760ae4215d42b80414d6614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:35 +0000
Subject: [PATCH 1/3] fix: Evaluator::default() has the full lookup tables

The derived Default left both tables empty, so every evaluation with a
default evaluator panicked.
---
 src/evaluate/lookup_table.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/evaluate/lookup_table.rs b/src/evaluate/lookup_table.rs
index f227fc3..fe9c5c4 100644
--- a/src/evaluate/lookup_table.rs
+++ b/src/evaluate/lookup_table.rs
@@ -18,12 +18,16 @@ use crate::{
 /// first checks to make sure the hand is not suited, then indexes into the
 /// unsuited lookup to find that `unsuited_lookup\[2730\]` is equal
 /// to `Meta::HighCard { hand_rank: HandRank(7462), high_rank: Rank::Seven }`.
-#[derive(Debug, Clone, Default, PartialEq, Eq)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 pub struct LookupTable {
     pub flush_lookup: FxHashMap<i32, Meta>,
     pub unsuited_lookup: FxHashMap<i32, Meta>,
 }
 
+impl Default for LookupTable {
+    fn default() -> Self { Self::new() }
+}
+
 impl LookupTable {
     pub fn new() -> Self {
         let mut table = Self {
-- 
2.43.0


From 36a41b07dc4da465c0e4de1895940071e841a581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:35 +0000
Subject: [PATCH 2/3] fix: length errors report the number of characters

The message compares the length with the expected two characters, but
gave the number of bytes.
---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 4d8f05c..de5e236 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -104,7 +104,7 @@ impl fmt::Display for ParseCardError {
                 f,
                 "Error parsing input '{}' as a Card: Found input of length {}, expected 2",
                 original_input,
-                original_input.len()
+                original_input.chars().count()
             ),
             Self::InvalidRank {
                 ref original_input,
-- 
2.43.0


From f64a8f1820afc85f11b364a19da8d448b778258a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:01 +0000
Subject: [PATCH 3/3] fix: duplicated cards are listed in a fixed order

The order came from a hash map with random state, so the text of one and
the same error differed from call to call.
---
 src/error.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index de5e236..c149db1 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -190,16 +190,8 @@ impl fmt::Display for EvalError {
             Self::CardsNotUnique(ref cards) => {
                 let dups: String = cards
                     .iter()
-                    .counts()
-                    .into_iter()
-                    .filter_map(|(card, count)| {
-                        if count > 1 {
-                            Some(card.rank_suit_string())
-                        } else {
-                            None
-                        }
-                    })
-                    .collect::<Vec<_>>()
+                    .duplicates()
+                    .map(|card| card.rank_suit_string())
                     .join(" ");
                 write!(
                     f,
-- 
2.43.0

