From 934e9cdb966ad4c76dca0d690d0cbca6b6c4612c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 01/16] fix: decode 9 byte integers

A u64 between 2^56 and 2^63 is written as 9 bytes, but reading always
expected a 10th byte after the 9th.
---
 src/serialize/primitives.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/serialize/primitives.rs b/src/serialize/primitives.rs
index 55a6816..74ab9a8 100644
--- a/src/serialize/primitives.rs
+++ b/src/serialize/primitives.rs
@@ -72,12 +72,13 @@ impl Deserializable for u64 {
     fn deserialize(mut input: &[u8]) -> Option<(&[u8], Self)> {
         let mut out = 0;
         let mut eaten = 0;
+        let mut more_bytes = true;
 
         // We eat all the bytes that start with 1
         while input.is_empty() == false && eaten < 9 {
             // We shift the 7 data bits forwards, so they're all in front
             let byte = input[0];
-            let more_bytes = byte & 0b1000_0000 == 0b1000_0000;
+            more_bytes = byte & 0b1000_0000 == 0b1000_0000;
             let byte = byte << 1;
             out >>= 7;
             // We make the byte u64, and shift the data aaaaall the way to the front
@@ -97,7 +98,7 @@ impl Deserializable for u64 {
         }
 
         // This means there is one last byte with 1 bit of real data
-        if eaten == 9 {
+        if eaten == 9 && more_bytes {
             out >>= 1;
             if *input.get(0)? == 1 {
                 out |= 0b1000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000;
-- 
2.43.0


From 39aef4584d2d7363031daeb2643d78e756d8edfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 02/16] fix: reject integers cut off in the middle

The input ending while the last byte announces another was read as a
smaller number.
---
 src/serialize/primitives.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/serialize/primitives.rs b/src/serialize/primitives.rs
index 74ab9a8..da0edf2 100644
--- a/src/serialize/primitives.rs
+++ b/src/serialize/primitives.rs
@@ -105,7 +105,8 @@ impl Deserializable for u64 {
             }
             input = &input[1..];
             Some((input, out))
-        } else if eaten == 0 {
+        } else if more_bytes {
+            // The input ended before the integer did
             None
         } else {
             // We need to remove the extra padding from the beginning
-- 
2.43.0


From 54a5fcf158bb7563e9bf4f2dc8df0ab4c55fc512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 03/16] fix: reject strings longer than the input instead of
 panicking

---
 src/serialize/collections.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialize/collections.rs b/src/serialize/collections.rs
index 593cbf9..746cda0 100644
--- a/src/serialize/collections.rs
+++ b/src/serialize/collections.rs
@@ -121,7 +121,7 @@ fn test() {
 impl Deserializable for String {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (input, len) = usize::deserialize(input)?;
-        let bytes = &input[..len];
+        let bytes = input.get(..len)?;
         let string = String::from_utf8(bytes.to_vec()).ok()?;
         Some((&input[len..], string))
     }
-- 
2.43.0


From 1aadb398a45a2e890721e6fab4c3adc444768f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 04/16] fix: reject arrays of the wrong length instead of
 panicking

---
 src/serialize/collections.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/serialize/collections.rs b/src/serialize/collections.rs
index 746cda0..b5e92aa 100644
--- a/src/serialize/collections.rs
+++ b/src/serialize/collections.rs
@@ -187,7 +187,9 @@ impl<T: Serializable, const N: usize> Serializable for [T; N] {
 impl<T: Default + Deserializable + Copy, const N: usize> DeserializableCollection for [T; N] {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (mut input, len) = usize::deserialize(input)?;
-        assert!(len == N);
+        if len != N {
+            return None;
+        }
         let mut out = [T::default(); N];
         for position in out.iter_mut().take(len) {
             let (new_input, item) = T::deserialize(input)?;
@@ -201,7 +203,9 @@ impl<T: Default + Deserializable + Copy, const N: usize> DeserializableCollectio
 impl<T: Default + Deserializable + Copy, const N: usize> Deserializable for [T; N] {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (mut input, len) = usize::deserialize(input)?;
-        assert!(len == N);
+        if len != N {
+            return None;
+        }
         let mut out = [T::default(); N];
         for position in out.iter_mut().take(len) {
             let (new_input, item) = T::deserialize(input)?;
-- 
2.43.0


From c8d9824b2cdecd93b2471145a1ca1c67cab7dad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:24 +0000
Subject: [PATCH 05/16] fix: do not allocate for more items than the input can
 hold

The stored length was trusted, so a few corrupt bytes made decoding panic
with a capacity overflow or ask for any amount of memory. Every item takes
at least one byte, so the remaining input bounds the length.
---
 src/classic_indexes/categorical.rs | 4 ++--
 src/classic_indexes/tag.rs         | 2 +-
 src/data/vendor.rs                 | 4 ++--
 src/serialize/collections.rs       | 8 ++++----
 src/serialize/nodes.rs             | 2 +-
 src/serialize/sequential_array.rs  | 2 +-
 6 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/classic_indexes/categorical.rs b/src/classic_indexes/categorical.rs
index 2800703..7a77bb2 100644
--- a/src/classic_indexes/categorical.rs
+++ b/src/classic_indexes/categorical.rs
@@ -51,7 +51,7 @@ impl<'a> Category<'a> {
         let (input, name) = String::deserialize(input)?;
         let (mut input, options_len) = usize::deserialize(input)?;
 
-        let mut options = Vec::with_capacity(options_len);
+        let mut options = Vec::with_capacity(options_len.min(input.len()));
         for _ in 0..options_len {
             let (input_after_name, name) = String::deserialize(input)?;
 
@@ -162,7 +162,7 @@ impl<'a> CategoryIndex<'a> {
         products: &'a [Product<'a>],
     ) -> Option<(&'i [u8], CategoryIndex<'a>)> {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut cats = Vec::with_capacity(len);
+        let mut cats = Vec::with_capacity(len.min(input.len()));
         let mut next_option_serialization_id = 0;
         for _ in 0..len {
             let (new_input, cat) =
diff --git a/src/classic_indexes/tag.rs b/src/classic_indexes/tag.rs
index b1b5b14..24024bc 100644
--- a/src/classic_indexes/tag.rs
+++ b/src/classic_indexes/tag.rs
@@ -60,7 +60,7 @@ impl<'a> TagIndex<'a> {
     ) -> Option<(&'i [u8], TagIndex<'a>)> {
         let (input, tag_len) = usize::deserialize(input)?;
         let mut input = input;
-        let mut tags = Vec::with_capacity(tag_len);
+        let mut tags = Vec::with_capacity(tag_len.min(input.len()));
         for id in 0..tag_len {
             let (new_input, name) = String::deserialize(input)?;
 
diff --git a/src/data/vendor.rs b/src/data/vendor.rs
index f53ce78..84dcb87 100644
--- a/src/data/vendor.rs
+++ b/src/data/vendor.rs
@@ -97,8 +97,8 @@ impl<'arena> ArenaDeserializableCollection<'arena, Vendor> for VendorManager<'ar
         'arena: 'input,
     {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut tags = AHashMap::with_capacity(len);
-        let mut by_id = Vec::with_capacity(len);
+        let mut tags = AHashMap::with_capacity(len.min(input.len()));
+        let mut by_id = Vec::with_capacity(len.min(input.len()));
         for id in 0..len {
             let (new_input, name) = String::deserialize(input)?;
             input = new_input;
diff --git a/src/serialize/collections.rs b/src/serialize/collections.rs
index b5e92aa..73e9383 100644
--- a/src/serialize/collections.rs
+++ b/src/serialize/collections.rs
@@ -38,7 +38,7 @@ impl Serializable for Vec<usize> {
 impl<T: Deserializable> Deserializable for Vec<T> {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut out = Vec::with_capacity(len);
+        let mut out = Vec::with_capacity(len.min(input.len()));
         for _ in 0..len {
             let (new_input, item) = T::deserialize(input)?;
             input = new_input;
@@ -59,7 +59,7 @@ impl<'arena, T: ArenaDeserializable<'arena, T>> ArenaDeserializableCollection<'a
         'arena: 'input,
     {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut out = Vec::with_capacity(len);
+        let mut out = Vec::with_capacity(len.min(input.len()));
         for _ in 0..len {
             let (new_input, item) = T::deserialize_arena(input, arena)?;
             input = new_input;
@@ -150,7 +150,7 @@ where
         'arena: 'input,
     {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut out = AHashMap::with_capacity(len);
+        let mut out = AHashMap::with_capacity(len.min(input.len()));
         for _ in 0..len {
             let (new_input, key) = K::deserialize(input)?;
             let (new_input, value) = V::deserialize_arena(new_input, arena)?;
@@ -164,7 +164,7 @@ where
 impl<K: Deserializable + Eq + Hash, V: Deserializable> Deserializable for AHashMap<K, V> {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut out = AHashMap::with_capacity(len);
+        let mut out = AHashMap::with_capacity(len.min(input.len()));
         for _ in 0..len {
             let (new_input, key) = K::deserialize(input)?;
             let (new_input, value) = V::deserialize(new_input)?;
diff --git a/src/serialize/nodes.rs b/src/serialize/nodes.rs
index adb7c99..77cb8f7 100644
--- a/src/serialize/nodes.rs
+++ b/src/serialize/nodes.rs
@@ -82,7 +82,7 @@ impl<'arena, G: GramAtom, const N: usize> GramIndex<'arena, G, Product<'arena>,
         let (input, roots) = AHashMap::deserialize_arena(input, node_arena)?;
 
         let (mut input, data_len) = usize::deserialize(input)?;
-        let mut data = AHashMap::with_capacity(data_len);
+        let mut data = AHashMap::with_capacity(data_len.min(input.len()));
         for _ in 0..data_len {
             let (next_input, gram) = <[G; N]>::deserialize(input)?;
             let (next_input, products, _) =
diff --git a/src/serialize/sequential_array.rs b/src/serialize/sequential_array.rs
index 22643b3..3ca368a 100644
--- a/src/serialize/sequential_array.rs
+++ b/src/serialize/sequential_array.rs
@@ -28,7 +28,7 @@ where
 {
     let (mut input, len) = usize::deserialize(input)?;
 
-    let mut output = Vec::with_capacity(len);
+    let mut output = Vec::with_capacity(len.min(input.len()));
     let mut previous = None;
     for _ in 0..len {
         let (new_input, parsed) = T::deserialize(input)?;
-- 
2.43.0


From 3cc59eb32308528a7c7ede00521b2d6c5865d18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:24 +0000
Subject: [PATCH 06/16] fix: reject sequential arrays that overflow

Adding up corrupt differences panicked in builds with overflow checks, and
wrapped around to other items in those without.
---
 src/serialize/sequential_array.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/serialize/sequential_array.rs b/src/serialize/sequential_array.rs
index 3ca368a..60a0ad1 100644
--- a/src/serialize/sequential_array.rs
+++ b/src/serialize/sequential_array.rs
@@ -1,5 +1,30 @@
 use super::{Deserializable, Serializable};
 
+pub trait CheckedAdd
+where
+    Self: Sized,
+{
+    fn checked_add(self, other: Self) -> Option<Self>;
+}
+
+impl CheckedAdd for usize {
+    fn checked_add(self, other: Self) -> Option<Self> {
+        usize::checked_add(self, other)
+    }
+}
+
+impl CheckedAdd for u64 {
+    fn checked_add(self, other: Self) -> Option<Self> {
+        u64::checked_add(self, other)
+    }
+}
+
+impl CheckedAdd for u32 {
+    fn checked_add(self, other: Self) -> Option<Self> {
+        u32::checked_add(self, other)
+    }
+}
+
 pub fn serialize<T, I, Out: FnMut(u8)>(input: I, output: &mut Out)
 where
     T: std::ops::Sub<Output = T> + Ord + Serializable + Copy,
@@ -24,7 +49,7 @@ where
 
 pub fn deserialize<T>(input: &[u8]) -> Option<(&[u8], Vec<T>)>
 where
-    T: std::ops::Add<Output = T> + Ord + Serializable + Deserializable + Copy,
+    T: CheckedAdd + Ord + Serializable + Deserializable + Copy,
 {
     let (mut input, len) = usize::deserialize(input)?;
 
@@ -35,7 +60,7 @@ where
         input = new_input;
 
         let item = match previous {
-            Some(previous) => parsed + previous,
+            Some(previous) => parsed.checked_add(previous)?,
             None => parsed,
         };
 
-- 
2.43.0


From a03aed8d4897322946f09efc8e68d6686ae0a559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:24 +0000
Subject: [PATCH 07/16] fix: report unreadable index data instead of panicking

initialize returns whether it worked, but never returned false.
---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5a08707..92780cd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -49,7 +49,10 @@ pub fn init_panic_hook() {
 pub fn initialize(input: &[u8]) -> bool {
     init_panic_hook();
 
-    let (index, classic) = deserialize_all(input, &NODE_ARENA, &SUPER_ARENA).unwrap();
+    let (index, classic) = match deserialize_all(input, &NODE_ARENA, &SUPER_ARENA) {
+        Some(v) => v,
+        None => return false,
+    };
 
     SHARED_INDEX.lock().unwrap().replace(Arc::new(index));
     SHARED_CLASSIC_INDEX
-- 
2.43.0


From 913995ecf0616b26906ce2f498b582288c83fbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:24 +0000
Subject: [PATCH 08/16] fix: number category options in the order they are read
 back

Options were numbered as they were first seen, which differs from the
numbering after serialization once products interleave categories.
---
 src/classic_indexes/categorical.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/classic_indexes/categorical.rs b/src/classic_indexes/categorical.rs
index 7a77bb2..4313e7e 100644
--- a/src/classic_indexes/categorical.rs
+++ b/src/classic_indexes/categorical.rs
@@ -154,6 +154,12 @@ impl<'a> CategoryIndex<'a> {
             }
         }
 
+        // Reading an index back numbers the options category by category, so we do the same
+        let all_options = categories.iter_mut().flat_map(|c| c.options.iter_mut());
+        for (serialization_id, option) in all_options.enumerate() {
+            option.serialization_id = serialization_id;
+        }
+
         CategoryIndex(categories)
     }
 
-- 
2.43.0


From 0f0623c14e1ce951836614507353a0598faad5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:44 +0000
Subject: [PATCH 09/16] fix: only drop n-grams of more than 80 percent of the
 products

The cutoff counted occurances instead of products, so a product repeating an
n-gram could not be found by it, and n-grams of exactly the allowed number of
products were dropped too: an index of two products had no data at all.
---
 src/ngram/indexer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ngram/indexer.rs b/src/ngram/indexer.rs
index bcb4c09..e1bb3c0 100644
--- a/src/ngram/indexer.rs
+++ b/src/ngram/indexer.rs
@@ -149,7 +149,11 @@ impl<'a, G: GramAtom, Data: Ord, const N: usize> GramIndex<'a, G, Data, N> {
         let maximum_product_amount = (products_amount as f32) * DATA_CUTOFF_PERCENTAGE;
         #[allow(clippy::cast_possible_truncation, clippy::cast_sign_loss)]
         let maximum_product_amount = maximum_product_amount as usize;
-        data_map.retain(|_, data| data.len() < maximum_product_amount);
+        data_map.retain(|_, data| {
+            // A product is listed once for every occurance, but only counts once
+            let repeats = data.windows(2).filter(|w| w[0] == w[1]).count();
+            data.len() - repeats <= maximum_product_amount
+        });
 
         // We also sort the data for easier access later
         for (_, data) in data_map.iter_mut() {
-- 
2.43.0


From 23605d4855e9224fe792484980a13ff29156b629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:44 +0000
Subject: [PATCH 10/16] fix: keep image urls aligned with their products

Feature values are looked up by product position, but products without media
added none, so every later product got the image of another one.
---
 src/data/raw_parser.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/data/raw_parser.rs b/src/data/raw_parser.rs
index f9a4f26..7e7857b 100644
--- a/src/data/raw_parser.rs
+++ b/src/data/raw_parser.rs
@@ -73,9 +73,13 @@ fn to_intermediate(input: Vec<RawProduct<'_>>) -> impl Iterator<Item = Intermedi
 
         let mut other_string = AHashMap::with_capacity(1);
 
-        if !media.is_empty() {
-            other_string.insert("image_url", media.swap_remove(0).url);
-        }
+        // Features are stored by product position, so products without media need a value too
+        let image_url = if media.is_empty() {
+            ""
+        } else {
+            media.swap_remove(0).url
+        };
+        other_string.insert("image_url", image_url);
 
         let mut other_numeric = AHashMap::with_capacity(1);
 
-- 
2.43.0


From f0ada367a35fd52d9fd54bcbd57fdce23d710e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:44 +0000
Subject: [PATCH 11/16] fix: recognise exact feature filters

Reflect.get gives undefined for a missing key, not an error, so {exact: value}
was always read as a range open at both ends, which filters nothing.
---
 src/js_interactable/feature_filter.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/js_interactable/feature_filter.rs b/src/js_interactable/feature_filter.rs
index 707aa02..812ae5a 100644
--- a/src/js_interactable/feature_filter.rs
+++ b/src/js_interactable/feature_filter.rs
@@ -41,6 +41,14 @@ impl FeatureFilter {
 
             if let Some(from) = get_value(&values, "from") {
                 if let Some(to) = get_value(&values, "to") {
+                    // A missing key is found as undefined
+                    let exact = get_value(&values, "exact").filter(|e| !e.is_undefined());
+                    if let (Some(exact), true, true) =
+                        (exact, from.is_undefined(), to.is_undefined())
+                    {
+                        out.push(FeatureFilter::new_exactly(exact, feature));
+                        continue;
+                    }
                     out.push(FeatureFilter {
                         data: FilterData::Range { from, to },
                         feature,
-- 
2.43.0


From bc965c194ebcf395de173a9e7c7b1d54e7f89899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:44 +0000
Subject: [PATCH 12/16] fix: count characters in tag suggestions

The overlap is counted in characters but was compared with a length in bytes,
so a fully matching tag with non-ascii letters was not suggested.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 92780cd..0f17415 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -152,7 +152,7 @@ impl TagSuggestionResult {
 #[wasm_bindgen]
 pub fn tag_suggestion(query: &str) -> Option<TagSuggestionResult> {
     fn overlap(original: &str, other: &str, min_len: usize) -> f32 {
-        let min_len_found = original.len().min(other.len());
+        let min_len_found = original.chars().count().min(other.chars().count());
         if min_len_found < min_len {
             return 0.0;
         }
-- 
2.43.0


From d126873ec441b325e6d9031c1f6673849e1beee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:25 +0000
Subject: [PATCH 13/16] fix: limit how deep stored n-gram trees may nest

---
 src/serialize/nodes.rs | 53 ++++++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/src/serialize/nodes.rs b/src/serialize/nodes.rs
index 77cb8f7..a5c7015 100644
--- a/src/serialize/nodes.rs
+++ b/src/serialize/nodes.rs
@@ -27,6 +27,43 @@ impl<G: GramAtom> Serializable for &GramNode<'_, G> {
     }
 }
 
+// The search allows N / 3 changes, counted in a u8, so no index has deeper trees than this
+const MAX_NODE_DEPTH: usize = (u8::MAX as usize) * 3 + 2;
+
+fn deserialize_node<'input, 'arena, G: GramAtom>(
+    input: &'input [u8],
+    arena: &'arena Arena<GramNode<'arena, G>>,
+    depth_left: usize,
+) -> Option<(&'input [u8], &'arena GramNode<'arena, G>)>
+where
+    'arena: 'input,
+{
+    // Without a limit the input decides how much stack we use
+    let depth_left = depth_left.checked_sub(1)?;
+
+    let (input, item) = <G as Deserializable>::deserialize(input)?;
+    let (input, weight) = f32::deserialize(input)?;
+    let (mut input, len) = usize::deserialize(input)?;
+    let mut by_occurances = Vec::with_capacity(len.min(input.len()));
+    for _ in 0..len {
+        let (new_input, child) = deserialize_node(input, arena, depth_left)?;
+        input = new_input;
+        by_occurances.push(child);
+    }
+    let items = by_occurances.iter().fold(AHashMap::new(), |mut map, item| {
+        map.insert(item.item, *item);
+        map
+    });
+
+    let node: &'arena GramNode<'arena, G> = arena.alloc(GramNode {
+        item,
+        weight,
+        by_occurances,
+        items,
+    });
+    Some((input, node))
+}
+
 impl<'arena, G: GramAtom> ArenaDeserializable<'arena, Self> for GramNode<'arena, G> {
     fn deserialize_arena<'input>(
         input: &'input [u8],
@@ -35,21 +72,7 @@ impl<'arena, G: GramAtom> ArenaDeserializable<'arena, Self> for GramNode<'arena,
     where
         'arena: 'input,
     {
-        let (input, item) = <G as Deserializable>::deserialize(input)?;
-        let (input, weight) = f32::deserialize(input)?;
-        let (input, by_occurances) = Vec::deserialize_arena(input, arena)?;
-        let items = by_occurances.iter().fold(AHashMap::new(), |mut map, item| {
-            map.insert(item.item, *item);
-            map
-        });
-
-        let node: &'arena GramNode<'arena, G> = arena.alloc(GramNode {
-            item,
-            weight,
-            by_occurances,
-            items,
-        });
-        Some((input, node))
+        deserialize_node(input, arena, MAX_NODE_DEPTH)
     }
 }
 
-- 
2.43.0


From 6e494941782ea3ee6d6df6b45b6770df997b8f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:13 +0000
Subject: [PATCH 14/16] fix: refuse products whose price is not a number
 instead of panicking

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 0f17415..a989e13 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -208,6 +208,14 @@ pub fn index_and_serialize_with_n<const N: usize>(
     products: Vec<RawProduct>,
     arena: &'static SuperAlloc,
 ) -> Result<Vec<u8>, Box<dyn std::error::Error>> {
+    // Products can't be ordered by a price that isn't a number
+    for product in &products {
+        let price: f32 = product.price.min.amount.parse()?;
+        if price.is_nan() {
+            return Err("A price is not a number".into());
+        }
+    }
+
     let (prods, classic_index) = optimize(products, arena);
 
     let iter = prods.products.iter().map(|p| {
-- 
2.43.0


From cbbb78d50de5ffa8b8b0cc7fb8ac311286f676b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:13 +0000
Subject: [PATCH 15/16] fix: rank results by a total order, as weights of a
 damaged index may be NaN

---
 src/ngram/result_ranker.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/ngram/result_ranker.rs b/src/ngram/result_ranker.rs
index 2eafed9..b8dadc8 100644
--- a/src/ngram/result_ranker.rs
+++ b/src/ngram/result_ranker.rs
@@ -44,11 +44,8 @@ impl<'a, H: Hash + Eq, Data: HashExtractable<Inner = H>> ResultRanker<'a, H, Dat
 
     pub fn export_data_by_confidence(mut self) -> Vec<(&'a Data, f32)> {
         let mut all_data: Vec<_> = self.confidence_for_data.drain().map(|(_, v)| v).collect();
-        all_data.sort_by(|(_, a), (_, b)| {
-            a.partial_cmp(b)
-                .unwrap_or(std::cmp::Ordering::Equal)
-                .reverse()
-        });
+        // A damaged index can have weights that aren't numbers, and sorting needs a total order
+        all_data.sort_by(|(_, a), (_, b)| b.total_cmp(a));
         all_data
     }
 
-- 
2.43.0


From 05c4208d59d8891e30534ad55ec3834b1a91d83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:13 +0000
Subject: [PATCH 16/16] fix: do not panic on an order that leaves products out

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a989e13..f605173 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -96,7 +96,8 @@ pub fn search(
         let lock = SHARED_CLASSIC_INDEX.lock().ok()?;
         let classic = lock.as_ref()?;
         let order = classic.order.get_orders(&order)?;
-        results.sort_by_cached_key(|v| order[*v]);
+        // A damaged index can have orders that leave products out
+        results.sort_by_cached_key(|v| order.get(*v));
     }
 
     Some(ProductProducer::new(index.product_container, results))
-- 
2.43.0

