From 3e2cc4378fd4754f48ea03d8809de5dfd294acc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 01/13] fix: decode nine-byte variable-length numbers

Numbers from 2^56 up to 2^63-1 take exactly nine bytes, the last of which
has no continuation bit. The decoder took any nine bytes as the start of a
ten-byte number, so it swallowed the byte after the number, or rejected it.
---
 src/serialize/primitives.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/serialize/primitives.rs b/src/serialize/primitives.rs
index 55a6816..74ab9a8 100644
--- a/src/serialize/primitives.rs
+++ b/src/serialize/primitives.rs
@@ -72,12 +72,13 @@ impl Deserializable for u64 {
     fn deserialize(mut input: &[u8]) -> Option<(&[u8], Self)> {
         let mut out = 0;
         let mut eaten = 0;
+        let mut more_bytes = true;
 
         // We eat all the bytes that start with 1
         while input.is_empty() == false && eaten < 9 {
             // We shift the 7 data bits forwards, so they're all in front
             let byte = input[0];
-            let more_bytes = byte & 0b1000_0000 == 0b1000_0000;
+            more_bytes = byte & 0b1000_0000 == 0b1000_0000;
             let byte = byte << 1;
             out >>= 7;
             // We make the byte u64, and shift the data aaaaall the way to the front
@@ -97,7 +98,7 @@ impl Deserializable for u64 {
         }
 
         // This means there is one last byte with 1 bit of real data
-        if eaten == 9 {
+        if eaten == 9 && more_bytes {
             out >>= 1;
             if *input.get(0)? == 1 {
                 out |= 0b1000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000;
-- 
2.43.0


From 745f6427bee9c9f7325f8be422b657ba05726ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 02/13] fix: reject a variable-length number cut off before its
 last byte

An input that ended while the continuation bit was still set decoded to a
wrong, smaller number instead of None, so an index that lost its last bytes
could load with a wrong value.
---
 src/serialize/primitives.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/serialize/primitives.rs b/src/serialize/primitives.rs
index 74ab9a8..ebd76b6 100644
--- a/src/serialize/primitives.rs
+++ b/src/serialize/primitives.rs
@@ -105,7 +105,8 @@ impl Deserializable for u64 {
             }
             input = &input[1..];
             Some((input, out))
-        } else if eaten == 0 {
+        } else if more_bytes {
+            // The input ended before the last byte of the number
             None
         } else {
             // We need to remove the extra padding from the beginning
-- 
2.43.0


From 4e5636a4f1466a502ed9eef5d98117b4749aff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 03/13] fix: reject malformed text and array lengths instead of
 panicking

A text length running past the end of the input, or an array length other
than the expected one, made deserialize panic. It returns Option, so these
are now None like every other malformed input.
---
 src/serialize/collections.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/serialize/collections.rs b/src/serialize/collections.rs
index 593cbf9..b5e92aa 100644
--- a/src/serialize/collections.rs
+++ b/src/serialize/collections.rs
@@ -121,7 +121,7 @@ fn test() {
 impl Deserializable for String {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (input, len) = usize::deserialize(input)?;
-        let bytes = &input[..len];
+        let bytes = input.get(..len)?;
         let string = String::from_utf8(bytes.to_vec()).ok()?;
         Some((&input[len..], string))
     }
@@ -187,7 +187,9 @@ impl<T: Serializable, const N: usize> Serializable for [T; N] {
 impl<T: Default + Deserializable + Copy, const N: usize> DeserializableCollection for [T; N] {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (mut input, len) = usize::deserialize(input)?;
-        assert!(len == N);
+        if len != N {
+            return None;
+        }
         let mut out = [T::default(); N];
         for position in out.iter_mut().take(len) {
             let (new_input, item) = T::deserialize(input)?;
@@ -201,7 +203,9 @@ impl<T: Default + Deserializable + Copy, const N: usize> DeserializableCollectio
 impl<T: Default + Deserializable + Copy, const N: usize> Deserializable for [T; N] {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (mut input, len) = usize::deserialize(input)?;
-        assert!(len == N);
+        if len != N {
+            return None;
+        }
         let mut out = [T::default(); N];
         for position in out.iter_mut().take(len) {
             let (new_input, item) = T::deserialize(input)?;
-- 
2.43.0


From 5235faa6857af057a797fa4a1bde7defffe8c1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 04/13] fix: reject id lists whose running sum overflows

A malformed id list panicked in debug builds and wrapped around to an
unrelated id in release builds.
---
 src/serialize/sequential_array.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/serialize/sequential_array.rs b/src/serialize/sequential_array.rs
index 22643b3..7d0d833 100644
--- a/src/serialize/sequential_array.rs
+++ b/src/serialize/sequential_array.rs
@@ -1,5 +1,16 @@
 use super::{Deserializable, Serializable};
 
+/// Addition that reports when the sum does not fit
+pub trait CheckedAdd: Sized {
+    fn checked_add(self, other: Self) -> Option<Self>;
+}
+
+impl CheckedAdd for usize {
+    fn checked_add(self, other: Self) -> Option<Self> {
+        usize::checked_add(self, other)
+    }
+}
+
 pub fn serialize<T, I, Out: FnMut(u8)>(input: I, output: &mut Out)
 where
     T: std::ops::Sub<Output = T> + Ord + Serializable + Copy,
@@ -24,7 +35,7 @@ where
 
 pub fn deserialize<T>(input: &[u8]) -> Option<(&[u8], Vec<T>)>
 where
-    T: std::ops::Add<Output = T> + Ord + Serializable + Deserializable + Copy,
+    T: CheckedAdd + Ord + Serializable + Deserializable + Copy,
 {
     let (mut input, len) = usize::deserialize(input)?;
 
@@ -35,7 +46,7 @@ where
         input = new_input;
 
         let item = match previous {
-            Some(previous) => parsed + previous,
+            Some(previous) => parsed.checked_add(previous)?,
             None => parsed,
         };
 
-- 
2.43.0


From 7ee816c0cb2ca53fd0ce7d04099bc1a6ca28a5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 05/13] fix: do not reserve more memory than the input can fill

A malformed length made the deserializers reserve room for up to 2^64
elements, which aborts. Every element takes at least one byte, so the
remaining input bounds what can follow.
---
 src/classic_indexes/categorical.rs | 4 ++--
 src/classic_indexes/tag.rs         | 2 +-
 src/data/vendor.rs                 | 4 ++--
 src/serialize/collections.rs       | 8 ++++----
 src/serialize/nodes.rs             | 2 +-
 src/serialize/sequential_array.rs  | 2 +-
 6 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/classic_indexes/categorical.rs b/src/classic_indexes/categorical.rs
index 2800703..7a77bb2 100644
--- a/src/classic_indexes/categorical.rs
+++ b/src/classic_indexes/categorical.rs
@@ -51,7 +51,7 @@ impl<'a> Category<'a> {
         let (input, name) = String::deserialize(input)?;
         let (mut input, options_len) = usize::deserialize(input)?;
 
-        let mut options = Vec::with_capacity(options_len);
+        let mut options = Vec::with_capacity(options_len.min(input.len()));
         for _ in 0..options_len {
             let (input_after_name, name) = String::deserialize(input)?;
 
@@ -162,7 +162,7 @@ impl<'a> CategoryIndex<'a> {
         products: &'a [Product<'a>],
     ) -> Option<(&'i [u8], CategoryIndex<'a>)> {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut cats = Vec::with_capacity(len);
+        let mut cats = Vec::with_capacity(len.min(input.len()));
         let mut next_option_serialization_id = 0;
         for _ in 0..len {
             let (new_input, cat) =
diff --git a/src/classic_indexes/tag.rs b/src/classic_indexes/tag.rs
index b1b5b14..24024bc 100644
--- a/src/classic_indexes/tag.rs
+++ b/src/classic_indexes/tag.rs
@@ -60,7 +60,7 @@ impl<'a> TagIndex<'a> {
     ) -> Option<(&'i [u8], TagIndex<'a>)> {
         let (input, tag_len) = usize::deserialize(input)?;
         let mut input = input;
-        let mut tags = Vec::with_capacity(tag_len);
+        let mut tags = Vec::with_capacity(tag_len.min(input.len()));
         for id in 0..tag_len {
             let (new_input, name) = String::deserialize(input)?;
 
diff --git a/src/data/vendor.rs b/src/data/vendor.rs
index f53ce78..84dcb87 100644
--- a/src/data/vendor.rs
+++ b/src/data/vendor.rs
@@ -97,8 +97,8 @@ impl<'arena> ArenaDeserializableCollection<'arena, Vendor> for VendorManager<'ar
         'arena: 'input,
     {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut tags = AHashMap::with_capacity(len);
-        let mut by_id = Vec::with_capacity(len);
+        let mut tags = AHashMap::with_capacity(len.min(input.len()));
+        let mut by_id = Vec::with_capacity(len.min(input.len()));
         for id in 0..len {
             let (new_input, name) = String::deserialize(input)?;
             input = new_input;
diff --git a/src/serialize/collections.rs b/src/serialize/collections.rs
index b5e92aa..73e9383 100644
--- a/src/serialize/collections.rs
+++ b/src/serialize/collections.rs
@@ -38,7 +38,7 @@ impl Serializable for Vec<usize> {
 impl<T: Deserializable> Deserializable for Vec<T> {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut out = Vec::with_capacity(len);
+        let mut out = Vec::with_capacity(len.min(input.len()));
         for _ in 0..len {
             let (new_input, item) = T::deserialize(input)?;
             input = new_input;
@@ -59,7 +59,7 @@ impl<'arena, T: ArenaDeserializable<'arena, T>> ArenaDeserializableCollection<'a
         'arena: 'input,
     {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut out = Vec::with_capacity(len);
+        let mut out = Vec::with_capacity(len.min(input.len()));
         for _ in 0..len {
             let (new_input, item) = T::deserialize_arena(input, arena)?;
             input = new_input;
@@ -150,7 +150,7 @@ where
         'arena: 'input,
     {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut out = AHashMap::with_capacity(len);
+        let mut out = AHashMap::with_capacity(len.min(input.len()));
         for _ in 0..len {
             let (new_input, key) = K::deserialize(input)?;
             let (new_input, value) = V::deserialize_arena(new_input, arena)?;
@@ -164,7 +164,7 @@ where
 impl<K: Deserializable + Eq + Hash, V: Deserializable> Deserializable for AHashMap<K, V> {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut out = AHashMap::with_capacity(len);
+        let mut out = AHashMap::with_capacity(len.min(input.len()));
         for _ in 0..len {
             let (new_input, key) = K::deserialize(input)?;
             let (new_input, value) = V::deserialize(new_input)?;
diff --git a/src/serialize/nodes.rs b/src/serialize/nodes.rs
index adb7c99..77cb8f7 100644
--- a/src/serialize/nodes.rs
+++ b/src/serialize/nodes.rs
@@ -82,7 +82,7 @@ impl<'arena, G: GramAtom, const N: usize> GramIndex<'arena, G, Product<'arena>,
         let (input, roots) = AHashMap::deserialize_arena(input, node_arena)?;
 
         let (mut input, data_len) = usize::deserialize(input)?;
-        let mut data = AHashMap::with_capacity(data_len);
+        let mut data = AHashMap::with_capacity(data_len.min(input.len()));
         for _ in 0..data_len {
             let (next_input, gram) = <[G; N]>::deserialize(input)?;
             let (next_input, products, _) =
diff --git a/src/serialize/sequential_array.rs b/src/serialize/sequential_array.rs
index 7d0d833..31f394f 100644
--- a/src/serialize/sequential_array.rs
+++ b/src/serialize/sequential_array.rs
@@ -39,7 +39,7 @@ where
 {
     let (mut input, len) = usize::deserialize(input)?;
 
-    let mut output = Vec::with_capacity(len);
+    let mut output = Vec::with_capacity(len.min(input.len()));
     let mut previous = None;
     for _ in 0..len {
         let (new_input, parsed) = T::deserialize(input)?;
-- 
2.43.0


From 68e68ed272469604f8b2222d5719c2fded3597c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 06/13] fix: do not drop a long text whose only space is its
 first character

The text was cut at that space, so a description such as " aaa..." was
stored as the empty string and the reloaded product no longer equalled the
original.
---
 src/serialize/collections.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/serialize/collections.rs b/src/serialize/collections.rs
index 73e9383..97a926e 100644
--- a/src/serialize/collections.rs
+++ b/src/serialize/collections.rs
@@ -94,7 +94,8 @@ fn limit_string_len(input: &str, max_len: usize) -> &str {
                 None => &input[0..offset],
             };
         }
-        if char == ' ' {
+        // Cutting at a leading space would leave nothing
+        if char == ' ' && offset > 0 {
             last_candidate = Some(offset);
         }
     }
-- 
2.43.0


From f2439541a381b7a2f8314e624793f4ef76c620b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 07/13] fix: keep a limited text within its limit

Only the start of a character was compared to the limit, so a text without
a usable space, or one whose last character crossed the limit, was stored
up to four bytes too long.
---
 src/serialize/collections.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/serialize/collections.rs b/src/serialize/collections.rs
index 97a926e..338efe3 100644
--- a/src/serialize/collections.rs
+++ b/src/serialize/collections.rs
@@ -87,17 +87,17 @@ impl Serializable for String {
 fn limit_string_len(input: &str, max_len: usize) -> &str {
     let mut last_candidate = None;
     for (offset, char) in input.char_indices() {
-        if offset > max_len {
+        // Cutting at a leading space would leave nothing
+        if char == ' ' && offset > 0 {
+            last_candidate = Some(offset);
+        }
+        if offset + char.len_utf8() > max_len {
             // Then we return either the last viable candidate, or now
             return match last_candidate {
                 Some(viable) => &input[0..viable],
                 None => &input[0..offset],
             };
         }
-        // Cutting at a leading space would leave nothing
-        if char == ' ' && offset > 0 {
-            last_candidate = Some(offset);
-        }
     }
     input
 }
-- 
2.43.0


From 0e43a246bf61df0f4d17cf8ddb10512f44dd9c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 08/13] fix: keep image urls with their own product

Feature values are looked up by product position, but a product without
media added no value, so every later product got the image of the one
after it. Products without media now hold an empty url.
---
 src/data/raw_parser.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/data/raw_parser.rs b/src/data/raw_parser.rs
index f9a4f26..679dde1 100644
--- a/src/data/raw_parser.rs
+++ b/src/data/raw_parser.rs
@@ -73,9 +73,13 @@ fn to_intermediate(input: Vec<RawProduct<'_>>) -> impl Iterator<Item = Intermedi
 
         let mut other_string = AHashMap::with_capacity(1);
 
-        if !media.is_empty() {
-            other_string.insert("image_url", media.swap_remove(0).url);
-        }
+        // Features are stored by product position, so every product needs a value
+        let image_url = if media.is_empty() {
+            ""
+        } else {
+            media.swap_remove(0).url
+        };
+        other_string.insert("image_url", image_url);
 
         let mut other_numeric = AHashMap::with_capacity(1);
 
-- 
2.43.0


From 3a92004879869d3f72561816c4a46a7376e1299b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 09/13] fix: give category options the same ids before and
 after saving

Options were numbered in the order the products mention them, but loading
numbers them category by category. With two or more categories a reloaded
category index no longer equalled the saved one.
---
 src/classic_indexes/categorical.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/classic_indexes/categorical.rs b/src/classic_indexes/categorical.rs
index 7a77bb2..2800ffc 100644
--- a/src/classic_indexes/categorical.rs
+++ b/src/classic_indexes/categorical.rs
@@ -154,6 +154,15 @@ impl<'a> CategoryIndex<'a> {
             }
         }
 
+        // Loading numbers the options in the order they are stored, so we do the same
+        let mut next_stored_id = 0;
+        for category in &mut categories {
+            for option in &mut category.options {
+                option.serialization_id = next_stored_id;
+                next_stored_id += 1;
+            }
+        }
+
         CategoryIndex(categories)
     }
 
-- 
2.43.0


From 8af1ede7ffa280608111604b6f298b52fe336348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:35 +0000
Subject: [PATCH 10/13] fix: apply exact feature filters

Reading a missing key from a JS object gives undefined rather than an
error, so {exact: x} was always taken for a range without bounds, which
lets every product through.
---
 src/js_interactable/feature_filter.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/js_interactable/feature_filter.rs b/src/js_interactable/feature_filter.rs
index 707aa02..ed43e06 100644
--- a/src/js_interactable/feature_filter.rs
+++ b/src/js_interactable/feature_filter.rs
@@ -39,16 +39,19 @@ impl FeatureFilter {
             let feature = entry.get(0).as_string()?;
             let values = entry.get(1);
 
+            let exact = get_value(&values, "exact")?;
             if let Some(from) = get_value(&values, "from") {
                 if let Some(to) = get_value(&values, "to") {
-                    out.push(FeatureFilter {
-                        data: FilterData::Range { from, to },
-                        feature,
-                    });
-                    continue;
+                    // Reading a missing key gives undefined, so this might not be a range
+                    if exact.is_undefined() || !from.is_undefined() || !to.is_undefined() {
+                        out.push(FeatureFilter {
+                            data: FilterData::Range { from, to },
+                            feature,
+                        });
+                        continue;
+                    }
                 }
             }
-            let exact = get_value(&values, "exact")?;
             out.push(FeatureFilter {
                 feature,
                 data: FilterData::Exact(exact),
-- 
2.43.0


From bfb494422da739e9e4bc31e111e092a39bfa0bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:35 +0000
Subject: [PATCH 11/13] fix: measure tag suggestions in characters, not bytes
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The overlap counts equal characters but was divided by a length in bytes,
so a keyword equal to a tag was not suggested once enough of its letters
are non-ASCII, as in "blå".
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5a08707..edd1359 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -149,7 +149,7 @@ impl TagSuggestionResult {
 #[wasm_bindgen]
 pub fn tag_suggestion(query: &str) -> Option<TagSuggestionResult> {
     fn overlap(original: &str, other: &str, min_len: usize) -> f32 {
-        let min_len_found = original.len().min(other.len());
+        let min_len_found = original.chars().count().min(other.chars().count());
         if min_len_found < min_len {
             return 0.0;
         }
-- 
2.43.0


From 431f587878062ad31d83c671f6f6f050e42fcd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:35 +0000
Subject: [PATCH 12/13] fix: drop a gram only when too many products contain it

The cutoff compared the number of occurrences, so a gram repeated inside a
few products was dropped, and it also dropped grams right at the limit: of
two products none could be found at all.
---
 src/ngram/indexer.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ngram/indexer.rs b/src/ngram/indexer.rs
index bcb4c09..f4ea0f4 100644
--- a/src/ngram/indexer.rs
+++ b/src/ngram/indexer.rs
@@ -21,6 +21,17 @@ fn occurances_to_weight(total: u32, this: u32) -> f32 {
 
 const DATA_CUTOFF_PERCENTAGE: f32 = 0.8;
 
+// A product is listed once per occurrence of a gram, and its entries are next to each other
+fn count_products<Data: Ord>(data: &[&Data]) -> usize {
+    let mut products = 0;
+    for (i, product) in data.iter().enumerate() {
+        if i == 0 || data[i - 1] != *product {
+            products += 1;
+        }
+    }
+    products
+}
+
 #[derive(Clone, Debug)]
 struct MutableGramNode<G: GramAtom>(Rc<RefCell<InnerMutableGramNode<G>>>);
 
@@ -149,7 +160,7 @@ impl<'a, G: GramAtom, Data: Ord, const N: usize> GramIndex<'a, G, Data, N> {
         let maximum_product_amount = (products_amount as f32) * DATA_CUTOFF_PERCENTAGE;
         #[allow(clippy::cast_possible_truncation, clippy::cast_sign_loss)]
         let maximum_product_amount = maximum_product_amount as usize;
-        data_map.retain(|_, data| data.len() < maximum_product_amount);
+        data_map.retain(|_, data| count_products(data) <= maximum_product_amount);
 
         // We also sort the data for easier access later
         for (_, data) in data_map.iter_mut() {
-- 
2.43.0


From 14825cc3ac8c37c7d2f37dbfd74a73c09e10de67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:35 +0000
Subject: [PATCH 13/13] fix: weigh a fuzzy match by the grams it consists of

---
 src/ngram/index.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ngram/index.rs b/src/ngram/index.rs
index a25689f..5fb7230 100644
--- a/src/ngram/index.rs
+++ b/src/ngram/index.rs
@@ -136,7 +136,8 @@ impl<'a, G: GramAtom, Data: Ord + HashExtractable + Debug, const N: usize>
     fn recursive_search(
         input: &[G],
         node: &GramNode<'_, G>,
-        previous_node: Option<&GramNode<'_, G>>,
+        // The parent of the node, with the weight collected up to there
+        previous_node: Option<(&GramNode<'_, G>, f32)>,
         changes: u8,
         changes_limit: u8,
         cummulative_weight: f32,
@@ -176,7 +177,7 @@ impl<'a, G: GramAtom, Data: Ord + HashExtractable + Debug, const N: usize>
             let found = Self::recursive_search(
                 next_input,
                 user_entered,
-                Some(node),
+                Some((node, cummulative_weight)),
                 changes,
                 changes_limit,
                 cummulative_weight * user_entered.weight,
@@ -207,7 +208,7 @@ impl<'a, G: GramAtom, Data: Ord + HashExtractable + Debug, const N: usize>
                 let found = Self::recursive_search(
                     next_input,
                     next_node,
-                    Some(node),
+                    Some((node, cummulative_weight)),
                     changes,
                     changes_limit,
                     cummulative_weight * next_node.weight,
@@ -219,7 +220,7 @@ impl<'a, G: GramAtom, Data: Ord + HashExtractable + Debug, const N: usize>
                 let repeat_found = Self::recursive_search(
                     input,
                     next_node,
-                    Some(node),
+                    Some((node, cummulative_weight)),
                     changes + 1,
                     changes_limit,
                     cummulative_weight * next_node.weight,
@@ -233,7 +234,9 @@ impl<'a, G: GramAtom, Data: Ord + HashExtractable + Debug, const N: usize>
 
             // We try ignoring the previous gram, in case the user entered "abc" when they meant "ac"
             if let Some(current_input) = input.get(0) {
-                if let Some(Some(last)) = previous_node.map(|node| node.items.get(current_input)) {
+                if let Some((Some(last), previous_weight)) = previous_node
+                    .map(|(node, weight)| (node.items.get(current_input), weight))
+                {
                     let mut previous_input = previous_input;
                     // We overwrite the old gram
                     previous_input[index - 1] = last.item;
@@ -244,7 +247,8 @@ impl<'a, G: GramAtom, Data: Ord + HashExtractable + Debug, const N: usize>
                         None,
                         changes,
                         changes_limit,
-                        cummulative_weight,
+                        // The ignored gram does not count, the one replacing it does
+                        previous_weight * last.weight,
                         previous_input,
                         // We use the same index since we really looked at index - 1
                         index,
-- 
2.43.0

