From fd267a941e608de4c7076eaaf15d38e1e9fdca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 01/34] fix: keep searching after a node that was already
 visited

---
 search/src/search.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/search/src/search.rs b/search/src/search.rs
index 726b78f..66c3bef 100644
--- a/search/src/search.rs
+++ b/search/src/search.rs
@@ -139,20 +139,18 @@ pub mod unique {
                 ref mut elements,
             } = self;
 
-            if let Some(item) = search.agenda.pop() {
+            while let Some(item) = search.agenda.pop() {
                 if elements.insert(item.clone()) {
                     search.agenda.extend(
                         (search.successors)(&item)
                             .into_iter()
                             .filter(|i| !elements.contains(i)),
                     );
-                    Some(item)
-                } else {
-                    None
+                    return Some(item);
                 }
-            } else {
-                None
             }
+
+            None
         }
     }
 }
-- 
2.43.0


From 8349975c660bdc7279ad7c357b8d98cf6c03ccea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 02/34] fix: hold each element once in a unique heap built from
 a vector

---
 unique-heap/src/lib.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/unique-heap/src/lib.rs b/unique-heap/src/lib.rs
index 427af98..b72d97a 100644
--- a/unique-heap/src/lib.rs
+++ b/unique-heap/src/lib.rs
@@ -134,11 +134,7 @@ where
     B: BuildHasher + Default,
 {
     fn from(vec: Vec<(W, I)>) -> Self {
-        let current_items = vec.iter().map(|(_, i)| i).cloned().collect();
-        UniqueHeap {
-            heap: vec.into(),
-            current_items,
-        }
+        vec.into_iter().map(|(weight, item)| (item, weight)).collect()
     }
 }
 
-- 
2.43.0


From 7c9b825cf4c986800348fb0829efc9a5255dddc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 03/34] fix: reject stored partitions with overlapping cells
 instead of panicking

---
 src/util/partition.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/util/partition.rs b/src/util/partition.rs
index 17e8a6d..ddfb95e 100644
--- a/src/util/partition.rs
+++ b/src/util/partition.rs
@@ -3,7 +3,7 @@ use std::collections::{BTreeMap, BTreeSet};
 use std::ops::Deref;
 use std::rc::Rc;
 
-use serde::de::{Deserialize, Deserializer};
+use serde::de::{Deserialize, Deserializer, Error};
 use serde::ser::{Serialize, Serializer};
 
 /// A partition Π = {π₁, …, πₙ} of an alpbabet Σ, such that
@@ -75,10 +75,8 @@ impl<T: Serialize + Ord + Clone> Serialize for Partition<T> {
 
 impl<'de, T: Deserialize<'de> + Ord + Clone> Deserialize<'de> for Partition<T> {
     fn deserialize<D: Deserializer<'de>>(des: D) -> Result<Self, D::Error> {
-        match Vec::deserialize(des) {
-            Ok(cells) => Ok(Partition::new(cells).unwrap()),
-            Err(e) => Err(e),
-        }
+        Partition::new(Vec::deserialize(des)?)
+            .ok_or_else(|| D::Error::custom("the cells of a partition are not disjoint"))
     }
 }
 
-- 
2.43.0


From 6bd9db853571dcd0c362f8b6b0510731dc44f4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 04/34] fix: ignore whitespace-only lines and indentation in
 grammar texts

---
 src/util/parsing.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/parsing.rs b/src/util/parsing.rs
index d0bbad6..91e9877 100644
--- a/src/util/parsing.rs
+++ b/src/util/parsing.rs
@@ -128,8 +128,8 @@ where
     let mut initial = Vec::new();
     let mut rules: Vec<R> = Vec::new();
 
-    while let Some(l) = it.next() {
-        if l.trim_start().starts_with("initial:") {
+    while let Some(l) = it.next().map(|l| l.trim()) {
+        if l.starts_with("initial:") {
             match parse_initials(l.as_bytes()) {
                 IResult::Done(_, mut result) => initial.append(&mut result),
                 _ => {
@@ -139,8 +139,8 @@ where
                     ))
                 }
             }
-        } else if !l.is_empty() && !l.trim_start().starts_with("%") {
-            rules.push(l.trim().parse()?);
+        } else if !l.is_empty() && !l.starts_with("%") {
+            rules.push(l.parse()?);
         }
     }
 
-- 
2.43.0


From ac0bcc19b304eb0aa969876a97373d40ef7600e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 05/34] =?UTF-8?q?fix:=20exclude=20the=20symbol=20=E2=86=92?=
 =?UTF-8?q?=20from=20bare=20tokens=20rather=20than=20its=20bytes?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/util/parsing.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/util/parsing.rs b/src/util/parsing.rs
index 91e9877..911a83d 100644
--- a/src/util/parsing.rs
+++ b/src/util/parsing.rs
@@ -1,4 +1,4 @@
-use nom::{is_space, IResult};
+use nom::{is_space, ErrorKind, IResult, Needed};
 use std::fmt::Debug;
 use std::str::{from_utf8, FromStr};
 
@@ -20,7 +20,7 @@ where
                     tag!("\""),
                     escaped!(is_not!("\"\\"), '\\', one_of!("\\\"")),
                     tag!("\"")
-                ) | is_not!(" \\\"-→,;)]%#")
+                ) | call!(parse_bare_token)
             ),
             from_utf8
         )
@@ -32,6 +32,21 @@ where
     )
 }
 
+/// Parses a token without delimiters, i.e. the longest prefix without one of the excluded symbols.
+fn parse_bare_token(input: &[u8]) -> IResult<&[u8], &[u8]> {
+    // the symbols, not their bytes, are excluded
+    let token = from_utf8(input)
+        .ok()
+        .and_then(|s| s.split(|c| " \\\"-→,;)]%#".contains(c)).next())
+        .map_or(0, |s| s.len());
+
+    match token {
+        _ if input.is_empty() => IResult::Incomplete(Needed::Size(1)),
+        0 => IResult::Error(error_position!(ErrorKind::IsNot, input)),
+        _ => IResult::Done(&input[token..], &input[..token]),
+    }
+}
+
 /// Parses the `input` into a `Vec<A>` given an `inner_parser` for type `A`, an `opening` delimiter, a `closing` delimiter, and a `separator`.
 /// The `inner_parser` must not consume the `separator`s or the `closing` delimiter of the given `input`.
 pub fn parse_vec<'a, A, P>(
-- 
2.43.0


From 755ec047b2f6dce312783d70c04eaf83a27c8af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 06/34] fix: end rule weights at comments and reject malformed
 ones in MCFG rules

---
 src/grammars/cfg/from_str.rs   | 2 +-
 src/grammars/pmcfg/from_str.rs | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/grammars/cfg/from_str.rs b/src/grammars/cfg/from_str.rs
index b3d432f..326a811 100644
--- a/src/grammars/cfg/from_str.rs
+++ b/src/grammars/cfg/from_str.rs
@@ -64,7 +64,7 @@ where
                 opt!(complete!(do_parse!(
                     tag!("#")
                         >> take_while!(is_space)
-                        >> weight_s: map_res!(is_not!(" "), from_utf8)
+                        >> weight_s: map_res!(is_not!(" \t%"), from_utf8)
                         >> weight: expr_res!(weight_s.parse())
                         >> (weight)
                 )))
diff --git a/src/grammars/pmcfg/from_str.rs b/src/grammars/pmcfg/from_str.rs
index 274de4e..9262bf5 100644
--- a/src/grammars/pmcfg/from_str.rs
+++ b/src/grammars/pmcfg/from_str.rs
@@ -74,12 +74,12 @@ where
                 opt!(complete!(do_parse!(
                     tag!("#")
                         >> take_while!(is_space)
-                        >> weight_s: map_res!(is_not!(" "), from_utf8)
-                        >> (weight_s.parse().unwrap())
+                        >> weight_s: map_res!(is_not!(" \t%"), from_utf8)
+                        >> weight: expr_res!(weight_s.parse())
+                        >> (weight)
                 )))
             >> take_while!(is_space)
-            >> many0!(tag!("%"))
-            >> take_while!(|_| true)
+            >> alt!(eof!() | preceded!(tag!("%"), take_while!(|_| true)))
             >> (PMCFGRule {
                 head: head,
                 tail: tail,
-- 
2.43.0


From 00003859c6c547c5344b77bd0bc503ecc6e3300f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 07/34] fix: quote the initial nonterminal of a printed LCFRS

---
 src/grammars/lcfrs/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammars/lcfrs/mod.rs b/src/grammars/lcfrs/mod.rs
index c0eeadd..37993ff 100644
--- a/src/grammars/lcfrs/mod.rs
+++ b/src/grammars/lcfrs/mod.rs
@@ -76,7 +76,7 @@ impl<N: Display, T: Display, W: Display> Display for Lcfrs<N, T, W> {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         let mut buffer = "".to_string();
 
-        buffer.push_str(format!("initial: [{}]\n\n", self.init).as_str());
+        buffer.push_str(format!("initial: [\"{}\"]\n\n", self.init).as_str());
 
         for r in &self.rules {
             buffer.push_str(format!("{}\n", r).as_str());
-- 
2.43.0


From 8905d8200479bfd574b3cc4dcbb71e928ca19605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 08/34] fix: reject LCFRS rules with undefined successors
 instead of panicking

---
 src/grammars/lcfrs/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/grammars/lcfrs/mod.rs b/src/grammars/lcfrs/mod.rs
index 37993ff..6775a72 100644
--- a/src/grammars/lcfrs/mod.rs
+++ b/src/grammars/lcfrs/mod.rs
@@ -31,8 +31,11 @@ where
             // scope for lieftime of `fanouts` that borrows from rules
             let fanouts = read_fanouts(&rules)?;
             let check_fanouts = |rule: &PMCFGRule<N, T, W>| -> bool {
-                let fanouts: Vec<usize> = rule.tail.iter().map(|nt| fanouts[nt]).collect();
-                check_composition(&rule.composition.composition, &fanouts)
+                let fanouts: Option<Vec<usize>> =
+                    rule.tail.iter().map(|nt| fanouts.get(nt).cloned()).collect();
+                fanouts.map_or(false, |fanouts| {
+                    check_composition(&rule.composition.composition, &fanouts)
+                })
             };
 
             // check initial fanout
-- 
2.43.0


From faaf036b1a1c9b320ee22d0bff1f34fe54673885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 09/34] fix: accept LCFRS rules whose last successors have no
 components

---
 src/grammars/lcfrs/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/grammars/lcfrs/mod.rs b/src/grammars/lcfrs/mod.rs
index 6775a72..bd0d841 100644
--- a/src/grammars/lcfrs/mod.rs
+++ b/src/grammars/lcfrs/mod.rs
@@ -127,6 +127,11 @@ fn check_composition<T>(composition: &[Vec<VarT<T>>], fanouts: &[usize]) -> bool
         VecMultiMapAdapter(&mut variable_occurances)[i].push(j);
     }
 
+    // successors without components do not occur
+    if variable_occurances.len() < fanouts.len() {
+        variable_occurances.resize_with(fanouts.len(), Vec::new);
+    }
+
     variable_occurances.len() == fanouts.len()
         && variable_occurances
             .into_iter()
-- 
2.43.0


From d9bdd7bf919bf87e5b093c1b728b2d5f0cbece4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 10/34] fix: skip rules with undefined successors when
 converting an MCFG to an LCFRS

---
 src/grammars/lcfrs/conversion.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/grammars/lcfrs/conversion.rs b/src/grammars/lcfrs/conversion.rs
index ef428e9..8d4f9dd 100644
--- a/src/grammars/lcfrs/conversion.rs
+++ b/src/grammars/lcfrs/conversion.rs
@@ -70,6 +70,10 @@ where
         .uniques()
         {
             for rule in rulemap.get(a).unwrap_or(&Vec::new()) {
+                // rules with undefined successors do not occur in any derivation
+                if rule.tail.iter().any(|nt| !fanouts.contains_key(nt)) {
+                    continue;
+                }
                 rules.push(to_lcfrs_rule((*rule).clone(), deletions.clone(), &fanouts));
             }
         }
-- 
2.43.0


From 4ff88f2288300154120d382edadd2ae5463a3121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 11/34] fix: use a terminal rule in CS parsing only where the
 word is its terminal

---
 src/grammars/lcfrs/csparsing/automaton/chart.rs    | 14 +++++++++++++-
 .../lcfrs/csparsing/automaton/kbest/mod.rs         |  3 +--
 src/grammars/lcfrs/csparsing/automaton/mod.rs      |  1 +
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/grammars/lcfrs/csparsing/automaton/chart.rs b/src/grammars/lcfrs/csparsing/automaton/chart.rs
index 3adacc0..7fb863d 100644
--- a/src/grammars/lcfrs/csparsing/automaton/chart.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/chart.rs
@@ -1,4 +1,4 @@
-use super::{RangeT, StateT};
+use super::{RangeT, RuleIdT, StateT};
 use num_traits::Zero;
 use std::ops::AddAssign;
 
@@ -11,6 +11,7 @@ pub struct DenseChart<W>(
     usize,            // n
     usize,            // states
     u16,              // max no. of constituents per span
+    Vec<Vec<RuleIdT>>, // terminal rules that read the word at each position
 );
 
 pub fn chart_size(n: usize) -> usize {
@@ -44,6 +45,7 @@ impl<W: Copy> DenseChart<W> {
             n,
             states,
             bt_per_cell as u16,
+            vec![ Vec::new(); n ],
         )
     }
 
@@ -58,6 +60,16 @@ impl<W: Copy> DenseChart<W> {
         }
     }
 
+    /// Adds a terminal rule that reads the word at a position.
+    pub fn add_terminal_rule(&mut self, i: RangeT, rule: RuleIdT) {
+        self.6[i as usize].push(rule);
+    }
+
+    /// Checks if a terminal rule reads the word at a position.
+    pub fn reads_terminal(&self, i: RangeT, rule: RuleIdT) -> bool {
+        self.6[i as usize].contains(&rule)
+    }
+
     /// Gets weight for specific constituent and span.
     pub fn get_weight(&self, i: RangeT, j: RangeT, q: StateT) -> Option<W>
     where
diff --git a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
index c0d476d..5baa309 100644
--- a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
@@ -126,9 +126,8 @@ where
         if j - i == 1 {
             for &(r, w) in nullaries[q as usize]
                 .iter()
-                .filter(|&(r, _)| filter[*r as usize])
+                .filter(|&(r, _)| filter[*r as usize] && chart.reads_terminal(i, *r))
             {
-                // is is not correct in general, but ok for terminal-seperated rules
                 heap.push(IndexedBacktrace::Nullary(r, w), w);
             }
         }
diff --git a/src/grammars/lcfrs/csparsing/automaton/mod.rs b/src/grammars/lcfrs/csparsing/automaton/mod.rs
index 13f33b7..0e5ffd4 100644
--- a/src/grammars/lcfrs/csparsing/automaton/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/mod.rs
@@ -295,6 +295,7 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
                                 return None;
                             }
                             let _ = outsides.get(q, l, r, n)?;
+                            chart.add_terminal_rule(l as u8, rid);
                             Some((w, q))
                         }))
                     }
-- 
2.43.0


From 61cafef776b26b727076d728ab2f3bb38c3851c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 12/34] fix: multiply weights in one order in k-best
 enumeration, where rounding repeated trees

---
 src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
index 5baa309..bdfd125 100644
--- a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
@@ -104,13 +104,15 @@ where
             .filter(|&(r, _, _, _)| filter[*r as usize])
         {
             for mid in (i + 1)..j {
+                // multiplies in the same order as `weight`: the enumeration relies on
+                // weights that do not increase with the indices, not even by rounding
                 if let Some(sws) = chart
                     .get_weight(i, mid, q1)
-                    .and_then(|lew| chart.get_weight(mid, j, q2).map(move |riw| lew * riw))
+                    .and_then(|lew| chart.get_weight(mid, j, q2).map(move |riw| w * lew * riw))
                 {
                     heap.push(
                         IndexedBacktrace::Binary(r, q1, mid, q2, w, 0u32, 0u32),
-                        w * sws,
+                        sws,
                     );
                 }
             }
-- 
2.43.0


From 920d21654bd3cb36a88ac7df6340ee357bdb69d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 13/34] fix: start k-best lists with a derivation that does not
 refer to itself

---
 .../lcfrs/csparsing/automaton/chart.rs         |  8 ++++++++
 .../lcfrs/csparsing/automaton/kbest/mod.rs     | 18 +++++++++++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/grammars/lcfrs/csparsing/automaton/chart.rs b/src/grammars/lcfrs/csparsing/automaton/chart.rs
index 7fb863d..cb9628b 100644
--- a/src/grammars/lcfrs/csparsing/automaton/chart.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/chart.rs
@@ -83,6 +83,14 @@ impl<W: Copy> DenseChart<W> {
         }
     }
 
+    /// Checks if a state was added to a span before another one.
+    pub fn added_before(&self, i: RangeT, j: RangeT, earlier: StateT, later: StateT) -> bool {
+        self.iterate_nont(i, j)
+            .map(|&(state, _)| state)
+            .take_while(|&state| state != later)
+            .any(|state| state == earlier)
+    }
+
     // pub fn get_best(&self, i: RangeT, j: RangeT) -> Option<(StateT, W)>
     // where
     //     W: Zero + PartialEq,
diff --git a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
index bdfd125..da6e76d 100644
--- a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
@@ -161,7 +161,23 @@ where
                 Entry::Vacant(ve) => {
                     let mut bts =
                         Self::backtraces(chart, binaries, unaries, nullaries, &rulefilter, i, j, q);
-                    if let Some((first, vit)) = bts.pop() {
+                    // A chain rule is only a first choice if its successor was found before q;
+                    // otherwise circles of chain rules with weight one refer to themselves.
+                    let mut postponed = Vec::new();
+                    let first = loop {
+                        match bts.pop() {
+                            Some((IndexedBacktrace::Unary(r, q1, w, k), vit))
+                                if !chart.added_before(i, j, q1, q) =>
+                            {
+                                postponed.push((IndexedBacktrace::Unary(r, q1, w, k), vit))
+                            }
+                            first => break first,
+                        }
+                    };
+                    for (bt, w) in postponed {
+                        bts.push(bt, w);
+                    }
+                    if let Some((first, vit)) = first {
                         let mut vec = Vec::with_capacity(bts.len() + 1);
                         vec.push((first, vit));
                         ve.insert((vec, bts));
-- 
2.43.0


From 7a0643712963ffda8010f0cfb19b147814505d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 14/34] fix: allow sentences of more than 255 words in CS
 parsing

---
 src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs |  4 ++--
 src/grammars/lcfrs/csparsing/automaton/mod.rs       | 10 +++++-----
 src/grammars/lcfrs/csparsing/mod.rs                 |  4 ++--
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
index da6e76d..ac88a96 100644
--- a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
@@ -301,8 +301,8 @@ impl<'a, W: Ord + Copy + Mul<Output = W> + Zero> Iterator for ChartIterator<'a,
         let &mut ChartIterator { initial, n, k, .. } = self;
         self.k += 1;
 
-        self.kth(0u8, n as u8, initial, k)
-            .map(|(backtrace, _)| self.read(0u8, n as u8, &backtrace))
+        self.kth(0, n as RangeT, initial, k)
+            .map(|(backtrace, _)| self.read(0, n as RangeT, &backtrace))
     }
 }
 
diff --git a/src/grammars/lcfrs/csparsing/automaton/mod.rs b/src/grammars/lcfrs/csparsing/automaton/mod.rs
index 0e5ffd4..31139c6 100644
--- a/src/grammars/lcfrs/csparsing/automaton/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/mod.rs
@@ -22,7 +22,7 @@ pub use self::rulemask::RuleMaskBuilder;
 
 pub type RuleIdT = u32;
 pub type StateT = u32;
-pub type RangeT = u8;
+pub type RangeT = u16;
 
 /// stores a lhs state and weight of a rule
 pub type BuRule<W> = (W, StateT);
@@ -295,7 +295,7 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
                                 return None;
                             }
                             let _ = outsides.get(q, l, r, n)?;
-                            chart.add_terminal_rule(l as u8, rid);
+                            chart.add_terminal_rule(l as RangeT, rid);
                             Some((w, q))
                         }))
                     }
@@ -303,7 +303,7 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
 
                 // binary step
                 for mid in l + 1..r {
-                    for &(lnt, lew) in chart.iterate_nont(l as u8, mid as u8) {
+                    for &(lnt, lew) in chart.iterate_nont(l as RangeT, mid as RangeT) {
                         let available_rules = &self.0[lnt as usize];
                         let cache = (NOSTATE, None);
                         heap_of_nonterminals.extend(available_rules.iter().filter_map(
@@ -314,7 +314,7 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
                                 let riw = if cache.0 == rnt {
                                     cache.1
                                 } else {
-                                    chart.get_weight(mid as u8, r as u8, rnt)
+                                    chart.get_weight(mid as RangeT, r as RangeT, rnt)
                                 }?;
                                 let _ = outsides.get(lhs, l, r, n)?;
                                 Some((lew * ruw * riw, lhs))
@@ -332,7 +332,7 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
                     if replace(&mut skip[q as usize], true) {
                         continue;
                     }
-                    chart.add_entry(l as u8, r as u8, q, w);
+                    chart.add_entry(l as RangeT, r as RangeT, q, w);
                     heap_of_nonterminals.extend(self.1[q as usize].iter().filter_map(
                         |&(rid, (rw, q))| {
                             if !rule_filter[rid as usize] {
diff --git a/src/grammars/lcfrs/csparsing/mod.rs b/src/grammars/lcfrs/csparsing/mod.rs
index 29a3cd8..d11e9c5 100644
--- a/src/grammars/lcfrs/csparsing/mod.rs
+++ b/src/grammars/lcfrs/csparsing/mod.rs
@@ -15,7 +15,7 @@ use std::{
     ops::Mul,
 };
 
-use self::automaton::{Automaton, RuleMaskBuilder, SxOutside};
+use self::automaton::{Automaton, RangeT, RuleMaskBuilder, SxOutside};
 
 /// The indices of a bracket in a CS representation for an lcfrs.
 /// Assumes integerized an itergerized set of (at most 2^32) rules and fanouts
@@ -220,7 +220,7 @@ where
             Automaton::from_grammar(rules_with_id, initial.clone())
         };
         let rulemaskbuilder = RuleMaskBuilder::new(rules.iter(), &initial);
-        let estimates = SxOutside::from_automaton(&generator, estimates_max_width as u8);
+        let estimates = SxOutside::from_automaton(&generator, estimates_max_width as RangeT);
 
         CSRepresentation {
             generator,
-- 
2.43.0


From ef5f9ee0fd778b178061ee11883c1e45c97432b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:40 +0000
Subject: [PATCH 15/34] fix: read all terminals after the last variable of a
 component in tree-stack automata

---
 src/automata/tree_stack_automaton/from_pmcfg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/automata/tree_stack_automaton/from_pmcfg.rs b/src/automata/tree_stack_automaton/from_pmcfg.rs
index 005b2e9..8033afe 100644
--- a/src/automata/tree_stack_automaton/from_pmcfg.rs
+++ b/src/automata/tree_stack_automaton/from_pmcfg.rs
@@ -77,8 +77,8 @@ impl<
             let mut down_buffer: Vec<T> = Vec::new();
             for component in &r.composition.composition {
                 i = 0;
+                down_buffer.clear();
                 for ntt in component {
-                    down_buffer.clear();
                     match *ntt {
                         VarT::Var(_, _) => {
                             i += 1;
-- 
2.43.0


From dc8d4a135edb60672ca3b3b8fff17f989acfb6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 16/34] fix: follow the order in which components are visited
 in tree-stack automata

---
 .../tree_stack_automaton/from_pmcfg.rs        | 67 +++++++++++++++----
 1 file changed, 54 insertions(+), 13 deletions(-)

diff --git a/src/automata/tree_stack_automaton/from_pmcfg.rs b/src/automata/tree_stack_automaton/from_pmcfg.rs
index 8033afe..c67dd16 100644
--- a/src/automata/tree_stack_automaton/from_pmcfg.rs
+++ b/src/automata/tree_stack_automaton/from_pmcfg.rs
@@ -46,7 +46,21 @@ impl<X: Display> Display for PosState<X> {
     }
 }
 
-// TODO assumes that the PMCFG is monotonic on the visit-order of components
+/// For each successor of a rule, the order in which its components are visited if the components of
+/// the rule itself are visited in the given order.
+fn successor_orders<N, T, W>(rule: &PMCFGRule<N, T, W>, order: &[usize]) -> Vec<Vec<usize>> {
+    let mut orders = vec![Vec::new(); rule.tail.len()];
+    let components = &rule.composition.composition;
+    for symbol in order.iter().filter_map(|&j| components.get(j)).flatten() {
+        if let VarT::Var(i, j) = *symbol {
+            if !orders[i].contains(&j) {
+                orders[i].push(j);
+            }
+        }
+    }
+    orders
+}
+
 impl<
         N: Clone + Ord + PartialEq + Hash,
         T: Clone + Ord + PartialEq + Hash,
@@ -119,25 +133,50 @@ impl<
                 }
             }
         }
-        // each [r, [r₁, …, rₖ]] on the agenda signifies that r(r₁(…), …, rₖ(…)) is a possible subderivation
-        let mut agenda: Vec<DerivationSnippet<N, T, W>> = Vec::new();
+        // the orders in which the components of each nonterminal may be visited
+        let mut orders: BTreeMap<N, BTreeSet<Vec<usize>>> = BTreeMap::new();
+        let mut order_agenda: Vec<(N, Vec<usize>)> = Vec::new();
+
+        for r in &g.rules {
+            let natural_order = (0..r.composition.composition.len()).collect();
+            order_agenda.push((r.head.clone(), natural_order));
+        }
+
+        while let Some((n, order)) = order_agenda.pop() {
+            if orders.entry(n.clone()).or_insert_with(BTreeSet::new).insert(order.clone()) {
+                for r in rule_map.get(&n).into_iter().flatten() {
+                    let successors = r.tail.iter().cloned();
+                    order_agenda.extend(successors.zip(successor_orders(r, &order)));
+                }
+            }
+        }
+
+        // each [o, [r, [r₁, …, rₖ]]] on the agenda signifies that r(r₁(…), …, rₖ(…)) is a possible subderivation
+        // in which the components of r are visited in the order o
+        let mut agenda: Vec<(Vec<usize>, DerivationSnippet<N, T, W>)> = Vec::new();
 
         for r in g.rules {
-            agenda.push((
-                r.clone(),
-                r.tail.iter().map(|n| rule_map[n].clone()).collect(),
-            ));
+            let rss: Vec<_> = r
+                .tail
+                .iter()
+                .map(|n| rule_map.get(n).cloned().unwrap_or_default())
+                .collect();
+            for order in &orders[&r.head] {
+                agenda.push((order.clone(), (r.clone(), rss.clone())));
+            }
         }
 
         let mut buffer: Vec<T>;
 
-        let mut j: usize;
         let mut k: usize;
 
-        for (r, rss) in agenda {
-            j = 0;
+        for (order, (r, rss)) in agenda {
             let mut previous_component: Vec<Option<usize>> = rss.iter().map(|_| None).collect();
-            for component in r.composition.composition.clone() {
+            for j in order {
+                let component = match r.composition.composition.get(j) {
+                    Some(component) => component.clone(),
+                    None => continue,
+                };
                 buffer = Vec::new();
                 k = 0;
                 for token in component {
@@ -194,11 +233,13 @@ impl<
                         }
                     }
                 }
-
-                j += 1;
             }
         }
 
+        // different orders may give the same transition
+        let mut seen = BTreeSet::new();
+        transitions.retain(|t| seen.insert(t.clone()));
+
         TreeStackAutomaton::new(transitions, TreeStack::new(PosState::Initial))
     }
 }
-- 
2.43.0


From 2bc335be9a68398bc208fc7b5ccab5625c184213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 17/34] fix: ignore whitespace-only lines in automata and
 equivalence classes

---
 src/approximation/equivalence_classes.rs        | 2 +-
 src/automata/finite_state_automaton/from_str.rs | 2 +-
 src/automata/tree_stack_automaton/from_str.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/approximation/equivalence_classes.rs b/src/approximation/equivalence_classes.rs
index a3e3eb7..a59c430 100644
--- a/src/approximation/equivalence_classes.rs
+++ b/src/approximation/equivalence_classes.rs
@@ -140,7 +140,7 @@ where
         let mut default = None;
 
         for l in s.lines() {
-            if !l.is_empty() {
+            if !l.trim().is_empty() {
                 match l.trim().parse()? {
                     EquivalenceClass {
                         label,
diff --git a/src/automata/finite_state_automaton/from_str.rs b/src/automata/finite_state_automaton/from_str.rs
index ff542cd..1ea58a8 100644
--- a/src/automata/finite_state_automaton/from_str.rs
+++ b/src/automata/finite_state_automaton/from_str.rs
@@ -41,7 +41,7 @@ where
                     }
                     _ => return Err(format!("Malformed final declaration: {}", l)),
                 }
-            } else if !l.is_empty() && !l.trim_start().starts_with("%") {
+            } else if !l.trim().is_empty() && !l.trim_start().starts_with("%") {
                 transitions.push(l.trim().parse()?);
             }
         }
diff --git a/src/automata/tree_stack_automaton/from_str.rs b/src/automata/tree_stack_automaton/from_str.rs
index 3150cc4..197d6c3 100644
--- a/src/automata/tree_stack_automaton/from_str.rs
+++ b/src/automata/tree_stack_automaton/from_str.rs
@@ -35,7 +35,7 @@ where
                     }
                     _ => return Err(format!("Malformed initial declaration: {}", l)),
                 }
-            } else if !l.is_empty() && !l.trim_start().starts_with("%") {
+            } else if !l.trim().is_empty() && !l.trim_start().starts_with("%") {
                 transitions.push(l.trim().parse()?);
             }
         }
-- 
2.43.0


From 00e5e2cc62c73961cf7af180ef3ea5098313c0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:21 +0000
Subject: [PATCH 18/34] fix: reject malformed transitions instead of panicking
 and end weights at comments

---
 src/automata/tree_stack_automaton/from_str.rs |  2 +-
 src/recognisable/from_str.rs                  | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/automata/tree_stack_automaton/from_str.rs b/src/automata/tree_stack_automaton/from_str.rs
index 197d6c3..f8f6a76 100644
--- a/src/automata/tree_stack_automaton/from_str.rs
+++ b/src/automata/tree_stack_automaton/from_str.rs
@@ -53,7 +53,7 @@ impl<A: FromStr> FromStr for TreeStackInstruction<A> {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let v: Vec<&str> = s.split_whitespace().collect();
         let e: String = "Malformed node label.".to_string();
-        match v[0] {
+        match *v.first().unwrap_or(&"") {
             "Up" if v.len() == 5 => {
                 let n: usize = v[1].parse().map_err(|e: ParseIntError| e.to_string())?;
                 let cur_val: A = v[2].parse().map_err(|_| e.clone())?;
diff --git a/src/recognisable/from_str.rs b/src/recognisable/from_str.rs
index bc21893..46eecd6 100644
--- a/src/recognisable/from_str.rs
+++ b/src/recognisable/from_str.rs
@@ -46,20 +46,22 @@ where
                     delimited!(tag!("("), take_until!(")"), tag!(")")),
                     from_utf8
                 )
+            >> instruction: expr_res!(instruction.parse())
             >> take_while!(is_space)
             >> weight_o:
                 opt!(complete!(do_parse!(
                     tag!("#")
                         >> take_while!(is_space)
-                        >> weight_s: map_res!(is_not!(" "), from_utf8)
-                        >> (weight_s.parse().unwrap())
+                        >> weight_s: map_res!(is_not!(" \t%"), from_utf8)
+                        >> weight: expr_res!(weight_s.parse())
+                        >> (weight)
                 )))
             >> take_while!(is_space)
-            >> opt!(complete!(parse_comment))
+            >> alt!(map!(eof!(), |_| ()) | parse_comment)
             >> (Transition {
                 word: word,
                 weight: weight_o.unwrap_or(W::one()),
-                instruction: instruction.parse().unwrap(),
+                instruction,
             })
     )
 }
-- 
2.43.0


From 6c61ae8165db97acdc1efc3bf6856ecf8a2f5ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:21 +0000
Subject: [PATCH 19/34] fix: ignore whitespace after the initial configuration
 of an automaton

---
 src/automata/finite_state_automaton/from_str.rs | 2 +-
 src/automata/tree_stack_automaton/from_str.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/automata/finite_state_automaton/from_str.rs b/src/automata/finite_state_automaton/from_str.rs
index 1ea58a8..9c14f9a 100644
--- a/src/automata/finite_state_automaton/from_str.rs
+++ b/src/automata/finite_state_automaton/from_str.rs
@@ -28,7 +28,7 @@ where
 
         while let Some(l) = it.next() {
             if l.trim_start().starts_with("initial:") {
-                match parse_initial(l.trim_start().as_bytes()) {
+                match parse_initial(l.trim().as_bytes()) {
                     IResult::Done(_, result) => {
                         init = Some(result);
                     }
diff --git a/src/automata/tree_stack_automaton/from_str.rs b/src/automata/tree_stack_automaton/from_str.rs
index f8f6a76..adf8503 100644
--- a/src/automata/tree_stack_automaton/from_str.rs
+++ b/src/automata/tree_stack_automaton/from_str.rs
@@ -29,7 +29,7 @@ where
 
         while let Some(l) = it.next() {
             if l.trim_start().starts_with("initial:") {
-                match parse_initial(l.trim_start().as_bytes()) {
+                match parse_initial(l.trim().as_bytes()) {
                     IResult::Done(_, result) => {
                         initial = Some(result);
                     }
-- 
2.43.0


From 3f1e9fae5fa5d9fdadb7405a48f4aba202c7a7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 20/34] fix: print automata with the names of their states so
 that they can be read back

---
 src/automata/finite_state_automaton/mod.rs | 17 ++++++++---------
 src/automata/tree_stack_automaton/mod.rs   |  2 +-
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/automata/finite_state_automaton/mod.rs b/src/automata/finite_state_automaton/mod.rs
index ffa771a..b8a537d 100644
--- a/src/automata/finite_state_automaton/mod.rs
+++ b/src/automata/finite_state_automaton/mod.rs
@@ -210,7 +210,7 @@ where
     Q: Display,
 {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
-        write!(f, "{} → {}", self.source_state, self.target_state)
+        write!(f, "({} → {})", self.source_state, self.target_state)
     }
 }
 
@@ -221,19 +221,18 @@ where
     W: Clone + Display + Ord,
 {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
+        let state = |i| self.q_integeriser.find_value(i).unwrap();
         let mut buffer = "".to_string();
-        buffer.push_str(&format!("initial: {}\n", self.initial_state));
+        buffer.push_str(&format!("initial: {}\n", state(self.initial_state)));
 
         buffer.push_str("final: [");
         let mut first = true;
-        for i in 0..self.final_states.len() {
-            if self.final_states.contains(i) {
-                if first {
-                    buffer.push_str(", ");
-                    first = false;
-                }
-                buffer.push_str(&format!("\"{}\"", i));
+        for i in &self.final_states {
+            if !first {
+                buffer.push_str(", ");
             }
+            first = false;
+            buffer.push_str(&format!("\"{}\"", state(i)));
         }
         buffer.push_str("]\n\n");
         for t in self.list_transitions() {
diff --git a/src/automata/tree_stack_automaton/mod.rs b/src/automata/tree_stack_automaton/mod.rs
index d9ad20a..d9cb1ca 100644
--- a/src/automata/tree_stack_automaton/mod.rs
+++ b/src/automata/tree_stack_automaton/mod.rs
@@ -246,7 +246,7 @@ where
         write!(
             f,
             "initial: {}\n\n{}",
-            self.initial.current_symbol(),
+            self.a_integeriser.find_value(*self.initial.current_symbol()).unwrap(),
             formatted_transitions
         )
     }
-- 
2.43.0


From 55a2be910c84abe29daebf0a50bfb677582eefdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 21/34] fix: use all parses of the approximation in
 coarse-to-fine recognition, not only the first

---
 src/recognisable/coarse_to_fine.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/recognisable/coarse_to_fine.rs b/src/recognisable/coarse_to_fine.rs
index 5f24832..5db0b16 100644
--- a/src/recognisable/coarse_to_fine.rs
+++ b/src/recognisable/coarse_to_fine.rs
@@ -71,8 +71,9 @@ where
             self.input_buffer = Some(self.sublevel_parses.next());
         }
         match self.input_buffer {
-            Some(ref mut x) => x.take(),
-            _ => unreachable!(),
+            // the end of the sublevel parses stays in the buffer
+            Some(None) => None,
+            _ => self.input_buffer.take().and_then(|x| x),
         }
     }
 }
-- 
2.43.0


From 1265e2c23eeaac56576adee3b85de894f3175c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:28 +0000
Subject: [PATCH 22/34] fix: find the transitions behind an approximated
 transition whatever its weight

---
 src/approximation/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/approximation/mod.rs b/src/approximation/mod.rs
index 7087d92..09788d6 100644
--- a/src/approximation/mod.rs
+++ b/src/approximation/mod.rs
@@ -53,8 +53,9 @@ where
     T: Clone + Eq + Ord,
     W: Clone + MulAssign + One + Ord,
 {
-    reverse_transition_map:
-        BTreeMap<Transition<Strategy::I2, T, W>, Vec<Transition<Strategy::I1, T, W>>>,
+    /// the transitions that are approximated by reading a word and executing an instruction; the
+    /// weight is left out since an automaton may sum up the weights of equal transitions
+    reverse_transition_map: BTreeMap<(Vec<T>, Strategy::I2), Vec<Transition<Strategy::I1, T, W>>>,
     strategy: Strategy,
 }
 
@@ -95,7 +96,7 @@ where
             weight: t1.weight.clone(),
         };
         self.reverse_transition_map
-            .entry(t2.clone())
+            .entry((t2.word.clone(), t2.instruction.clone()))
             .or_insert(Vec::new())
             .push(t1);
         t2
@@ -105,7 +106,10 @@ where
         &self,
         t2: &Transition<Strategy::I2, T, W>,
     ) -> Vec<Transition<Strategy::I1, T, W>> {
-        match self.reverse_transition_map.get(t2) {
+        match self
+            .reverse_transition_map
+            .get(&(t2.word.clone(), t2.instruction.clone()))
+        {
             None => Vec::new(),
             Some(v) => v.clone(),
         }
-- 
2.43.0


From 414e583df9c74d38d6f581ffb3adeb2a6b0d1638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:09 +0000
Subject: [PATCH 23/34] fix: order rules that are equal up to their weight as
 equal

---
 src/grammars/pmcfg/mod.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/grammars/pmcfg/mod.rs b/src/grammars/pmcfg/mod.rs
index cfcb779..2c6b0e4 100644
--- a/src/grammars/pmcfg/mod.rs
+++ b/src/grammars/pmcfg/mod.rs
@@ -1,3 +1,4 @@
+use std::cmp::Ordering;
 use std::collections::{BTreeMap, HashMap};
 use std::fmt;
 use std::hash::{Hash, Hasher};
@@ -130,7 +131,7 @@ impl<'a, T> IntoIterator for &'a mut Composition<T> {
 ///     PMCFGRule::from_str("A → [[T a, Var 0 0, T b], [T c, Var 0 1]] (A) # 0.4").unwrap()
 /// );
 /// ```
-#[derive(Debug, PartialOrd, Ord, Clone, Serialize, Deserialize)]
+#[derive(Debug, Clone, Serialize, Deserialize)]
 pub struct PMCFGRule<N, T, W> {
     pub head: N,
     pub tail: Vec<N>,
@@ -211,6 +212,28 @@ impl<N: PartialEq, T: PartialEq, W> PartialEq for PMCFGRule<N, T, W> {
 
 impl<N: Eq, T: Eq, W> Eq for PMCFGRule<N, T, W> {}
 
+/// `impl` of `PartialOrd` that ignores the `weight` (to conform to the `impl` of `PartialEq`)
+impl<N: PartialOrd, T: PartialOrd, W> PartialOrd for PMCFGRule<N, T, W> {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        (&self.head, &self.tail, &self.composition).partial_cmp(&(
+            &other.head,
+            &other.tail,
+            &other.composition,
+        ))
+    }
+}
+
+/// `impl` of `Ord` that ignores the `weight` (to conform to the `impl` of `Eq`)
+impl<N: Ord, T: Ord, W> Ord for PMCFGRule<N, T, W> {
+    fn cmp(&self, other: &Self) -> Ordering {
+        (&self.head, &self.tail, &self.composition).cmp(&(
+            &other.head,
+            &other.tail,
+            &other.composition,
+        ))
+    }
+}
+
 impl<T: fmt::Display> fmt::Display for Composition<T> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         let mut buffer = "".to_string();
-- 
2.43.0


From 68b344b5246b0e7bb38112a6e9826c85ab81f5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 24/34] fix: merge equally labelled lines of an equivalence
 relation and refuse a second default class

---
 src/approximation/equivalence_classes.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/approximation/equivalence_classes.rs b/src/approximation/equivalence_classes.rs
index a59c430..76e6105 100644
--- a/src/approximation/equivalence_classes.rs
+++ b/src/approximation/equivalence_classes.rs
@@ -136,8 +136,8 @@ where
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let mut map = HashMap::new();
-        let mut default = None;
+        let mut map: HashMap<B, HashSet<A>> = HashMap::new();
+        let mut default: Option<B> = None;
 
         for l in s.lines() {
             if !l.trim().is_empty() {
@@ -146,9 +146,12 @@ where
                         label,
                         set: Some(elements),
                     } => {
-                        map.insert(label, elements);
+                        map.entry(label).or_insert_with(HashSet::new).extend(elements);
                     }
                     EquivalenceClass { label, set: None } => {
+                        if default.as_ref().map_or(false, |l| *l != label) {
+                            return Err(format!("Two default classes in {}", s));
+                        }
                         default = Some(label);
                     }
                 }
-- 
2.43.0


From 1123a49469e3e4d44e9f9299d3487401b205e653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 25/34] fix: separate the terminal of rules in which variables
 follow it

---
 src/grammars/pmcfg/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/grammars/pmcfg/mod.rs b/src/grammars/pmcfg/mod.rs
index 2c6b0e4..2213fe8 100644
--- a/src/grammars/pmcfg/mod.rs
+++ b/src/grammars/pmcfg/mod.rs
@@ -501,6 +501,7 @@ where
             for variable in component {
                 match variable {
                     &VarT::Var(num_nonter, num_compon) => {
+                        contains_only_one_terminal = false;
                         new_component.push(VarT::Var(num_nonter, num_compon));
                     }
                     &VarT::T(ref terminal) => {
-- 
2.43.0


From 196605cab037a540353dd418efbae669b4f20d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:10 +0000
Subject: [PATCH 26/34] hook: let checks read grammars in rparse's format (cfg
 verif_hooks)

---
 src/grammars/lcfrs/from_rparse.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/grammars/lcfrs/from_rparse.rs b/src/grammars/lcfrs/from_rparse.rs
index 3de68a4..bf33f33 100644
--- a/src/grammars/lcfrs/from_rparse.rs
+++ b/src/grammars/lcfrs/from_rparse.rs
@@ -136,6 +136,18 @@ where
     }
 }
 
+/// Reads a grammar in rparse's format; for checks from outside of the crate.
+#[cfg(verif_hooks)]
+pub fn lcfrs_from_rparse<N, W>(s: &str) -> Result<Lcfrs<N, (), W>, ()>
+where
+    N: FromStr,
+    W: FromStr,
+    <N as FromStr>::Err: Debug,
+    <W as FromStr>::Err: Debug,
+{
+    s.parse::<RparseClauses<N, W>>().map(|c| c.into())
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From edd09849fe2f416ebd8752a296cc2805566a2cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:59 +0000
Subject: [PATCH 27/34] fix: reject variables whose indices are too large
 instead of panicking

---
 src/grammars/pmcfg/from_str.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/grammars/pmcfg/from_str.rs b/src/grammars/pmcfg/from_str.rs
index 9262bf5..cc5e61c 100644
--- a/src/grammars/pmcfg/from_str.rs
+++ b/src/grammars/pmcfg/from_str.rs
@@ -91,6 +91,12 @@ where
     )
 }
 
+fn parse_index(digits: &[u8]) -> Result<usize, String> {
+    from_utf8(digits)
+        .map_err(|e| e.to_string())
+        .and_then(|s| s.parse().map_err(|e| format!("{}: {}", s, e)))
+}
+
 fn parse_var_t<T>(input: &[u8]) -> IResult<&[u8], VarT<T>>
 where
     T: FromStr,
@@ -103,13 +109,10 @@ where
                 do_parse!(
                     tag!("Var")
                         >> take_while!(is_space)
-                        >> i: digit
+                        >> i: map_res!(digit, parse_index)
                         >> take_while!(is_space)
-                        >> j: digit
-                        >> (VarT::Var(
-                            from_utf8(i).unwrap().parse().unwrap(),
-                            from_utf8(j).unwrap().parse().unwrap(),
-                        ))
+                        >> j: map_res!(digit, parse_index)
+                        >> (VarT::Var(i, j))
                 ) | do_parse!(
                     tag!("T") >> take_while!(is_space) >> token: parse_token >> (VarT::T(token))
                 )
-- 
2.43.0


From ed96f76a5c86d675726e4aa5b5068afb1c1346d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:16 +0000
Subject: [PATCH 28/34] fix: reject disco-dop yields that do not fit into their
 representation instead of panicking

---
 src/grammars/lcfrs/from_discodop.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/grammars/lcfrs/from_discodop.rs b/src/grammars/lcfrs/from_discodop.rs
index 96a76ef..9ac2700 100644
--- a/src/grammars/lcfrs/from_discodop.rs
+++ b/src/grammars/lcfrs/from_discodop.rs
@@ -32,7 +32,12 @@ fn is_binary_digit(c: char) -> bool {
 }
 
 /// Interprets a string over { '0', '1' } in reverse as an integer in binary format.
+/// There is no such integer if the string is longer than 64 characters.
 fn from_binary(s: &str) -> Option<u64> {
+    if s.len() > 64 {
+        return None;
+    }
+
     s.chars()
         .enumerate()
         .map(|(i, c)| match c {
-- 
2.43.0


From ec068f4bb59cc07ab5e43ceefca654085030674d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:59 +0000
Subject: [PATCH 29/34] fix: reject text that is left unread in disco-dop
 grammars and lexers

---
 src/grammars/lcfrs/from_discodop.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/grammars/lcfrs/from_discodop.rs b/src/grammars/lcfrs/from_discodop.rs
index 9ac2700..4236be3 100644
--- a/src/grammars/lcfrs/from_discodop.rs
+++ b/src/grammars/lcfrs/from_discodop.rs
@@ -31,6 +31,21 @@ fn is_binary_digit(c: char) -> bool {
     c == '0' || c == '1'
 }
 
+/// Extracts the result of a parser that read all of its input, except for trailing whitespace.
+fn all_consumed<T>(result: IResult<&str, T>) -> Result<T, Err<u32>> {
+    match result {
+        IResult::Done(rest, value) => {
+            if rest.trim().is_empty() {
+                Ok(value)
+            } else {
+                Result::Err(ErrorKind::Eof)
+            }
+        }
+        IResult::Error(e) => Result::Err(e),
+        IResult::Incomplete(_) => Result::Err(ErrorKind::Complete),
+    }
+}
+
 /// Interprets a string over { '0', '1' } in reverse as an integer in binary format.
 /// There is no such integer if the string is longer than 64 characters.
 fn from_binary(s: &str) -> Option<u64> {
@@ -174,8 +189,8 @@ where
                     } else {
                         (DiscoDeriv::Chain{lhs, rhs}, s_rhs_or_y, s_y_or_w)
                     };
-                    let ys = parse_yield(y).to_result().map_err(|_| ParseConsituentsError::Yield)?;
-                    let weight = parse_pseudocount(w).to_result().map_err(|_| ParseConsituentsError::Weight)?;
+                    let ys = all_consumed(parse_yield(y)).map_err(|_| ParseConsituentsError::Yield)?;
+                    let weight = all_consumed(parse_pseudocount(w)).map_err(|_| ParseConsituentsError::Weight)?;
                     Ok((deriv, ys, weight))
                 }
             )
@@ -337,7 +352,7 @@ where
     type Err = nom::Err<u32>;
     fn from_str(constituent_str: &str) -> Result<Self, Self::Err> {
         Ok(DiscoDopGrammar {
-            constituents: parse_discodop_constituents(constituent_str).to_result()?,
+            constituents: all_consumed(parse_discodop_constituents(constituent_str))?,
             lexer: None,
         })
     }
@@ -354,7 +369,7 @@ where
 {
     type Err = nom::Err<u32>;
     fn from_str(lexer_str: &str) -> Result<Self, Self::Err> {
-        parse_discodop_lexer(lexer_str).to_result()
+        all_consumed(parse_discodop_lexer(lexer_str))
     }
 }
 
-- 
2.43.0


From e1613a2bf2d0a49cb918e3f8b620f8248c9d2aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:28 +0000
Subject: [PATCH 30/34] fix: reject malformed rparse clauses instead of
 panicking or ignoring the rest

---
 src/grammars/lcfrs/from_rparse.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/grammars/lcfrs/from_rparse.rs b/src/grammars/lcfrs/from_rparse.rs
index bf33f33..95aa7ab 100644
--- a/src/grammars/lcfrs/from_rparse.rs
+++ b/src/grammars/lcfrs/from_rparse.rs
@@ -51,21 +51,26 @@ where
             tag!("\n"),
             do_parse!(
                 terminated!(digit, space)
-                    >> weight: take_while1!(|c| is_token(c) && c != ':')
+                    >> weight: map_res!(take_while1!(|c| is_token(c) && c != ':'), str::parse)
                     >> tag!(":")
-                    >> lhs: take_while1!(is_token)
+                    >> lhs: map_res!(take_while1!(is_token), str::parse)
                     >> delimited!(space, tag!("-->"), space)
-                    >> rhs1: take_while1!(is_token)
+                    >> rhs1: map_res!(take_while1!(is_token), str::parse)
                     >> space
-                    >> o_rhs2: opt!(delimited!(not!(tag!("[[[")), take_while1!(is_token), space))
+                    >> o_rhs2:
+                        opt!(delimited!(
+                            not!(tag!("[[[")),
+                            map_res!(take_while1!(is_token), str::parse),
+                            space
+                        ))
                     >> y: complete!(parse_rparse_yield)
                     >> (
-                        weight.parse().unwrap(),
-                        lhs.parse().unwrap(),
+                        weight,
+                        lhs,
                         if let Some(rhs2) = o_rhs2 {
-                            Rhs::Binary(rhs1.parse().unwrap(), rhs2.parse().unwrap())
+                            Rhs::Binary(rhs1, rhs2)
                         } else {
-                            Rhs::Chain(rhs1.parse().unwrap())
+                            Rhs::Chain(rhs1)
                         },
                         y
                     )
@@ -85,6 +90,7 @@ where
     type Err = ();
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         match parse_rparse_clauses(s) {
+            IResult::Done(rest, _) if !rest.trim().is_empty() => Err(()),
             IResult::Done(_, clauses) => Ok(clauses),
             _ => Err(()),
         }
-- 
2.43.0


From ce34577c04bcd1ba3c79e946ff657c259d4b1719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:48 +0000
Subject: [PATCH 31/34] fix: reject disco-dop weights with a zero denominator
 instead of panicking

---
 src/grammars/lcfrs/from_discodop.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/grammars/lcfrs/from_discodop.rs b/src/grammars/lcfrs/from_discodop.rs
index 4236be3..252767b 100644
--- a/src/grammars/lcfrs/from_discodop.rs
+++ b/src/grammars/lcfrs/from_discodop.rs
@@ -91,6 +91,11 @@ named!(parse_yield<&str,DiscoYield>,
     )
 );
 
+#[derive(Debug, Clone, Copy)]
+pub enum ParsePseudocountError {
+    Count,
+    Denominator,
+}
 /// Parse the weight given in the disco-dop format.
 /// Weights are given as pseudocounts, which are either fractions (numerator/denominator), or
 /// integer values.
@@ -101,13 +106,13 @@ where
     map_res!(
         s,
         tuple!(digit, opt!(complete!(preceded!(tag!("/"), digit)))),
-        |(num, denom): (&str, Option<&str>)| -> Result<W, W::Err> {
-            if let Some(denominator) = denom {
-                let numerator: W = num.parse()?;
-                let denominator: W = denominator.parse()?;
-                Ok(numerator / denominator)
-            } else {
-                num.parse()
+        |(num, denom): (&str, Option<&str>)| -> Result<W, ParsePseudocountError> {
+            let parse = |count: &str| count.parse().map_err(|_| ParsePseudocountError::Count);
+            let numerator: W = parse(num)?;
+            match denom {
+                Some(d) if d.chars().all(|c| c == '0') => Result::Err(ParsePseudocountError::Denominator),
+                Some(d) => Ok(numerator / parse(d)?),
+                None => Ok(numerator),
             }
         }
     )
-- 
2.43.0


From f2d2c2a8dfadc4a8cd1b4ac463aff3fd6e76bd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:59 +0000
Subject: [PATCH 32/34] fix: let tsa recognise use the requested coarse-to-fine
 strategy

---
 src/bin/tree_stack_automata.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/tree_stack_automata.rs b/src/bin/tree_stack_automata.rs
index b149be6..f2bb45f 100644
--- a/src/bin/tree_stack_automata.rs
+++ b/src/bin/tree_stack_automata.rs
@@ -82,14 +82,14 @@ pub fn handle_sub_matches(tsa_matches: &ArgMatches) {
                 None => None,
             };
 
-            match tsa_recognise_matches.value_of("strategies") {
+            match tsa_recognise_matches.value_of("coarse-to-fine") {
                 Some("tts") => {
                     let rec = coarse_to_fine_recogniser!(automaton; TTSElement::new());
 
                     recognise_corpus(rec, n, beam, corpus)
                 }
+                Some("") | None => recognise_corpus(automaton, n, beam, corpus),
                 Some(e) => panic!("[ERR] Strategy \"{}\" unknown.", e),
-                None => recognise_corpus(automaton, n, beam, corpus),
             }
         }
         _ => (),
-- 
2.43.0


From a17402d80c3eaa63744697c44ebba98c9a4096b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:01 +0000
Subject: [PATCH 33/34] fix: allow beams of zero and of more than 65535
 constituents in CS parsing

---
 src/grammars/lcfrs/csparsing/automaton/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/grammars/lcfrs/csparsing/automaton/mod.rs b/src/grammars/lcfrs/csparsing/automaton/mod.rs
index 31139c6..518dd0e 100644
--- a/src/grammars/lcfrs/csparsing/automaton/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/mod.rs
@@ -7,7 +7,9 @@ use fnv::FnvHashMap;
 use integeriser::{HashIntegeriser, Integeriser};
 use num_traits::One;
 use num_traits::Zero;
-use std::{collections::BinaryHeap, default::Default, hash::Hash, mem::replace, ops::Mul};
+use std::{
+    cmp::min, collections::BinaryHeap, default::Default, hash::Hash, mem::replace, ops::Mul,
+};
 use vecmultimap::VecMultiMap;
 
 mod chart;
@@ -276,6 +278,8 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
     ) -> DenseChart<W> {
         let n = word.len();
         let nonterminals = self.0.len();
+        // there is at most one constituent for each nonterminal
+        let beam = min(beam, nonterminals);
 
         // contains the constituents ordered by weight
         let mut heap_of_nonterminals: BinaryHeap<(W, StateT)> = BinaryHeap::with_capacity(beam);
@@ -342,7 +346,7 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
                             Some((rw * w, q))
                         },
                     ));
-                    i -= 1;
+                    i = i.saturating_sub(1);
                     if i == 0 || w < worst_weight {
                         break;
                     }
-- 
2.43.0


From 5241760c70b42dfd25a8f06b44622976ebb33599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:18 +0000
Subject: [PATCH 34/34] fix: reserve the least, not the greatest number of
 elements when collecting a unique heap

---
 unique-heap/src/lib.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/unique-heap/src/lib.rs b/unique-heap/src/lib.rs
index b72d97a..bf8b720 100644
--- a/unique-heap/src/lib.rs
+++ b/unique-heap/src/lib.rs
@@ -107,10 +107,7 @@ where
         T: IntoIterator<Item = (I, W)>,
     {
         let iter = iter.into_iter();
-        let n = match iter.size_hint() {
-            (_, Some(upper)) => upper,
-            (lower, None) => lower,
-        };
+        let (n, _) = iter.size_hint();
         let mut heap = BinaryHeap::with_capacity(n);
         let mut current_items = HashSet::with_capacity_and_hasher(n, Default::default());
 
-- 
2.43.0

