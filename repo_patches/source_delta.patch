From 6c399b4690cc298dacf783bb077e67cda181f895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:28 +0000
Subject: [PATCH 01/11] fix: clearing a literal set that matches any literal
 must empty it

---
 packages/teleparse/src/syntax/lit_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/teleparse/src/syntax/lit_set.rs b/packages/teleparse/src/syntax/lit_set.rs
index 299dbda..d1a482b 100644
--- a/packages/teleparse/src/syntax/lit_set.rs
+++ b/packages/teleparse/src/syntax/lit_set.rs
@@ -49,7 +49,7 @@ impl LitSet {
     pub fn clear(&mut self) {
         match self {
             Self::Match(set) => set.clear(),
-            Self::Any => {}
+            Self::Any => *self = Self::new(),
         }
     }
 
-- 
2.43.0


From f412404b14b282fc14d242abcf507eb525f18561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:28 +0000
Subject: [PATCH 02/11] fix: FOLLOW must see past symbols that can be empty in
 a sequence

---
 packages/teleparse/src/syntax/follow/builder.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/packages/teleparse/src/syntax/follow/builder.rs b/packages/teleparse/src/syntax/follow/builder.rs
index 3325f38..49ede11 100644
--- a/packages/teleparse/src/syntax/follow/builder.rs
+++ b/packages/teleparse/src/syntax/follow/builder.rs
@@ -65,10 +65,18 @@ impl<'a, L: Lexicon> FollowBuilder<'a, L> {
             ));
             set.insert(*yi);
         }
-        for yi in sequence.windows(2).rev() {
-            // for X -> Y1 Y2 ... Yi Yi+1 ... Yn
-            // FOLLOW(Yi) = FOLLOW(Yi) U (FIRST(Yi+1) - { epsilon })
-            self.add(FollowRel::union_first_minus_epsilon(yi[0], yi[1]));
+        for (i, yi) in sequence.iter().enumerate() {
+            // for X -> Y1 Y2 ... Yi Yi+1 ... Yj ... Yn
+            // if Yi+1 ... Yj-1 all has epsilon in FIRST,
+            // then FOLLOW(Yi) = FOLLOW(Yi) U (FIRST(Yj) - { epsilon })
+            let mut set = BTreeSet::new();
+            for yj in sequence.iter().skip(i + 1) {
+                self.add(FollowRel::if_epsilon_in_all_first_iter(
+                    set.iter(),
+                    FollowRel::union_first_minus_epsilon(*yi, *yj),
+                ));
+                set.insert(*yj);
+            }
         }
     }
 
-- 
2.43.0


From d61ac7544d6ba442ad7eda5535a3b063850d4635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:28 +0000
Subject: [PATCH 03/11] fix: fall back to the empty variant when the next token
 starts no variant

---
 packages/teleparse/src/syntax/jump.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/teleparse/src/syntax/jump.rs b/packages/teleparse/src/syntax/jump.rs
index 1005ace..5d8da11 100644
--- a/packages/teleparse/src/syntax/jump.rs
+++ b/packages/teleparse/src/syntax/jump.rs
@@ -110,8 +110,8 @@ impl<L: Lexicon> JumpTable<L> {
     #[inline]
     pub fn look_up(&self, token: Option<TokenSrc<'_, L>>) -> Option<usize> {
         token
-            .map(|token| self.look_up_token(&token))
-            .unwrap_or(self.epsilon)
+            .and_then(|token| self.look_up_token(&token))
+            .or(self.epsilon)
     }
 
     /// Look up the parsing table entry for a token
-- 
2.43.0


From 5a49a0918f952f41b04e8b202b2fb102cbf6dbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:28 +0000
Subject: [PATCH 04/11] fix: report an error when the input ends before the
 tail of Recover

---
 packages/teleparse/src/tp_impl/recover.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/teleparse/src/tp_impl/recover.rs b/packages/teleparse/src/tp_impl/recover.rs
index 850fac1..5434c59 100644
--- a/packages/teleparse/src/tp_impl/recover.rs
+++ b/packages/teleparse/src/tp_impl/recover.rs
@@ -75,6 +75,9 @@ where
                         }
                     };
                 }
+                if panic.is_none() {
+                    panic = Some(parser.unexpected_eof());
+                }
                 break None;
             }
             if tail_first.contains(token) || tail_first.contains_epsilon() {
-- 
2.43.0


From 26b776c69b6ac9995b6e0e154424c343b45f7ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 05/11] fix: insert a missing token at the end of input after
 the last token, not after trailing ignored text

---
 packages/teleparse/src/parser/parser_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/teleparse/src/parser/parser_impl.rs b/packages/teleparse/src/parser/parser_impl.rs
index d136e45..b9757e1 100644
--- a/packages/teleparse/src/parser/parser_impl.rs
+++ b/packages/teleparse/src/parser/parser_impl.rs
@@ -138,7 +138,7 @@ impl<'s, L: Lexicon> Parser<'s, L> {
             None => {
                 if follow.contains_eof() {
                     let expecting = FirstSet::one(ty, Some(match_lit));
-                    let token = Token::new(self.current_span(), ty);
+                    let token = Token::new(self.empty_span(), ty);
                     return SynResult::Recovered(token, vec![self.expecting(expecting)]);
                 }
                 return SynResult::Panic(vec![self.unexpected_eof()]);
-- 
2.43.0


From 45d2c279d2415738040004e5dee82cb3820edd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 06/11] fix: an empty span overlaps no token

---
 packages/teleparse/src/lex/vec.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/teleparse/src/lex/vec.rs b/packages/teleparse/src/lex/vec.rs
index ebff39a..3ff4fb4 100644
--- a/packages/teleparse/src/lex/vec.rs
+++ b/packages/teleparse/src/lex/vec.rs
@@ -168,6 +168,10 @@ impl<L: Lexicon> TokenSlice<L> {
     /// `Some` is returned
     pub fn overlap_bounds<S: Into<Span>>(&self, span: S) -> Option<(usize, usize)> {
         let span = span.into();
+        if span.hi <= span.lo {
+            // an empty span has no intersection with any token
+            return None;
+        }
         let lo = match self.search_lo(span.lo) {
             Ok(i) => i, // i must be overlapping/included
             Err(i) => {
-- 
2.43.0


From eeee47f6a4ae9a433d5dc5281729e1d782453b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 07/11] fix: getting the text of a span that starts past the
 end of the input must not panic

---
 packages/teleparse/src/lex/span.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/teleparse/src/lex/span.rs b/packages/teleparse/src/lex/span.rs
index ca57f46..1666680 100644
--- a/packages/teleparse/src/lex/span.rs
+++ b/packages/teleparse/src/lex/span.rs
@@ -44,10 +44,10 @@ impl Span {
 
     /// Get the content of this span from the entire source input
     pub fn get<'s>(&self, input: &'s str) -> &'s str {
-        if self.hi <= self.lo {
+        let hi = self.hi.min(input.len());
+        if hi <= self.lo {
             return "";
         }
-        let hi = self.hi.min(input.len());
         &input[self.lo..hi]
     }
 }
-- 
2.43.0


From d0c3ff335dadbe2b5affc088e21b2b9ed35b4537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 08/11] fix: continue a Split without a delimiter when the
 delimiter can be empty

---
 packages/teleparse/src/tp_impl/split.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/teleparse/src/tp_impl/split.rs b/packages/teleparse/src/tp_impl/split.rs
index 90f543a..01a5857 100644
--- a/packages/teleparse/src/tp_impl/split.rs
+++ b/packages/teleparse/src/tp_impl/split.rs
@@ -98,7 +98,9 @@ where
             if token.is_none() {
                 break;
             }
-            if !punct_first.contains(token) {
+            // if P can be empty, the next T can follow directly
+            let skip_punct = punct_first.contains_epsilon() && elem_first.contains(token);
+            if !punct_first.contains(token) && !skip_punct {
                 break;
             }
             // expecting P
-- 
2.43.0


From a8d7e6432f7b167805f5c52122a1bd2520bca6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 09/11] fix: token type bits of lexicons with more than 32
 token types

---
 packages/macros/src/lexicon.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/macros/src/lexicon.rs b/packages/macros/src/lexicon.rs
index 8e27db6..bc25aa2 100644
--- a/packages/macros/src/lexicon.rs
+++ b/packages/macros/src/lexicon.rs
@@ -272,6 +272,12 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
     let enum_len = enum_data.variants.len();
     let enum_first_variant = &enum_data.variants.first().unwrap().ident;
     let enum_last_variant = &enum_data.variants.last().unwrap().ident;
+    // the literal `1` is an i32, which is not wide enough for the larger enums
+    let to_bit = if enum_len <= 32 {
+        quote!((1 << self.id()) as Self::Bit)
+    } else {
+        quote!((1 as Self::Bit) << self.id())
+    };
     let out = quote! {
         #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
         #[repr(usize)]
@@ -304,7 +310,7 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
 
                 fn id(&self) -> usize { *self as usize }
                 fn from_id_unchecked(id: usize) -> Self { unsafe { std::mem::transmute(id) } }
-                fn to_bit(&self) -> Self::Bit { (1 << self.id()) as Self::Bit }
+                fn to_bit(&self) -> Self::Bit { #to_bit }
                 fn first() -> Self { Self::#enum_first_variant }
 
                 fn next(&self) -> ::core::option::Option<Self> {
-- 
2.43.0


From 31f6aedafd572558d452ab416a3506f4fa3870d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 10/11] fix: detect left recursion that is not also an LL(1)
 conflict

---
 packages/teleparse/src/syntax/metadata.rs | 116 ++++++++--------------
 1 file changed, 40 insertions(+), 76 deletions(-)

diff --git a/packages/teleparse/src/syntax/metadata.rs b/packages/teleparse/src/syntax/metadata.rs
index d81bf19..5caed75 100644
--- a/packages/teleparse/src/syntax/metadata.rs
+++ b/packages/teleparse/src/syntax/metadata.rs
@@ -57,11 +57,6 @@ impl<L: Lexicon> MetadataBuilder<L> {
         let prods = self.productions;
         let first = self.first_builder.build();
         let mut seen = BTreeSet::new();
-        let mut set = BTreeSet::new();
-        let mut stack = Vec::new();
-        check_left_recursive(
-            &names, &prods, root, &mut seen, &mut set, &mut stack, &first,
-        )?;
         let mut follow_builder = FollowBuilder::new(&first);
         for (t, prod) in &prods {
             match prod {
@@ -75,8 +70,25 @@ impl<L: Lexicon> MetadataBuilder<L> {
             }
         }
         let follow = follow_builder.build(root);
-        seen.clear();
         check_conflicts(&names, &prods, root, &mut seen, &first, &follow)?;
+        seen.clear();
+        let mut set = BTreeSet::new();
+        let mut stack = Vec::new();
+        // productions that still need to be checked, but that are not reachable
+        // from a production being checked without consuming a token
+        let mut pending = vec![root];
+        while let Some(t) = pending.pop() {
+            check_left_recursive(
+                &names,
+                &prods,
+                t,
+                &mut seen,
+                &mut set,
+                &mut stack,
+                &mut pending,
+                &first,
+            )?;
+        }
         let mut jump = Jump::new();
         seen.clear();
         build_jump(&prods, root, &mut seen, &first, &mut jump);
@@ -88,6 +100,7 @@ impl<L: Lexicon> MetadataBuilder<L> {
         })
     }
 }
+#[allow(clippy::too_many_arguments)]
 fn check_left_recursive<L: Lexicon>(
     names: &BTreeMap<TypeId, String>,
     prods: &BTreeMap<TypeId, ProductionEntry>,
@@ -95,12 +108,12 @@ fn check_left_recursive<L: Lexicon>(
     seen: &mut BTreeSet<TypeId>,
     set: &mut BTreeSet<TypeId>,
     stack: &mut Vec<TypeId>,
+    pending: &mut Vec<TypeId>,
     first: &First<L>,
 ) -> Result<(), GrammarError> {
-    if !seen.insert(t) {
-        return Ok(());
-    }
-    if !set.insert(t) {
+    // `set` is the productions on the current path, so this needs to be
+    // checked before checking if the production was seen
+    if set.contains(&t) {
         let stack = stack
             .iter()
             .map(|t| names.get(t).map(|x| x.as_str()).unwrap_or_default())
@@ -108,83 +121,34 @@ fn check_left_recursive<L: Lexicon>(
         let current = names.get(&t).map(|x| x.as_str()).unwrap_or_default();
         return Err(GrammarError::left_recursion(&stack, current));
     }
+    if !seen.insert(t) {
+        return Ok(());
+    }
+    set.insert(t);
+    stack.push(t);
     match prods.get(&t) {
-        None => {
-            set.remove(&t);
-        }
-        Some(ProductionEntry::Terminal) => {
-            set.remove(&t);
-        }
+        None => {}
+        Some(ProductionEntry::Terminal) => {}
         Some(ProductionEntry::Union(types)) => {
-            stack.push(t);
             for inner in types.iter() {
-                let result = check_left_recursive(names, prods, *inner, seen, set, stack, first);
-                if let Err(e) = result {
-                    stack.pop();
-                    set.remove(&t);
-                    return Err(e);
-                }
+                check_left_recursive(names, prods, *inner, seen, set, stack, pending, first)?;
             }
-            stack.pop();
-            set.remove(&t);
         }
         Some(ProductionEntry::Sequence(types)) => {
-            stack.push(t);
-            let mut iter = types.iter();
-            let inner_first = match iter.next() {
-                Some(inner) => inner,
-                None => {
-                    stack.pop();
-                    set.remove(&t);
-                    return Ok(());
-                }
-            };
-            let result = check_left_recursive(names, prods, *inner_first, seen, set, stack, first);
-            if let Err(e) = result {
-                stack.pop();
-                set.remove(&t);
-                return Err(e);
-            }
-            let mut temp_stack = Vec::new();
-            let mut temp_set = BTreeSet::new();
-
-            let (mut cur_stack, mut cur_set, mut need_pop) =
-                if first.get(inner_first).contains_epsilon() {
-                    (stack, set, true)
+            let mut is_left = true;
+            for inner in types.iter() {
+                if is_left {
+                    check_left_recursive(names, prods, *inner, seen, set, stack, pending, first)?;
+                    is_left = first.get(inner).contains_epsilon();
                 } else {
-                    stack.pop();
-                    set.remove(&t);
-                    (&mut temp_stack, &mut temp_set, false)
-                };
-
-            for inner in iter {
-                let result =
-                    check_left_recursive(names, prods, *inner, seen, cur_set, cur_stack, first);
-                if let Err(e) = result {
-                    if need_pop {
-                        cur_stack.pop();
-                        cur_set.remove(&t);
-                    }
-                    return Err(e);
+                    // a token is consumed before reaching here, check it on its own
+                    pending.push(*inner);
                 }
-                if !first.get(inner).contains_epsilon() {
-                    if need_pop {
-                        cur_stack.pop();
-                        cur_set.remove(&t);
-                    }
-                    temp_stack.clear();
-                    temp_set.clear();
-                    cur_stack = &mut temp_stack;
-                    cur_set = &mut temp_set;
-                    need_pop = false;
-                };
-            }
-            if need_pop {
-                cur_stack.pop();
-                cur_set.remove(&t);
             }
         }
     }
+    stack.pop();
+    set.remove(&t);
 
     Ok(())
 }
-- 
2.43.0


From f58470fb0874de73ad1088092f1be9c929c21a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 11/11] fix: derive lexicons with more than 32 token types

---
 packages/macros/src/lexicon.rs    |  8 +++++++-
 packages/teleparse/src/lex/map.rs | 25 +++++++++++++++++++++++++
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/packages/macros/src/lexicon.rs b/packages/macros/src/lexicon.rs
index bc25aa2..770b98a 100644
--- a/packages/macros/src/lexicon.rs
+++ b/packages/macros/src/lexicon.rs
@@ -278,6 +278,12 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
     } else {
         quote!((1 as Self::Bit) << self.id())
     };
+    // arrays only implement Default up to 32 elements
+    let map_ty = if enum_len <= 32 {
+        quote!([T; #enum_len])
+    } else {
+        quote!(#teleparse::lex::LargeArray<T, #enum_len>)
+    };
     let out = quote! {
         #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
         #[repr(usize)]
@@ -306,7 +312,7 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
             impl #teleparse::Lexicon for #enum_ident {
                 type Bit = #repr_ty;
                 type Lexer<'s> = #teleparse::lex::LogosLexerWrapper<'s, Self, DerivedLogos>;
-                type Map<T: Default + Clone> = [T; #enum_len];
+                type Map<T: Default + Clone> = #map_ty;
 
                 fn id(&self) -> usize { *self as usize }
                 fn from_id_unchecked(id: usize) -> Self { unsafe { std::mem::transmute(id) } }
diff --git a/packages/teleparse/src/lex/map.rs b/packages/teleparse/src/lex/map.rs
index 78a8f08..de96266 100644
--- a/packages/teleparse/src/lex/map.rs
+++ b/packages/teleparse/src/lex/map.rs
@@ -77,3 +77,28 @@ impl<L: Lexicon, T: Default + Clone> Map<L, T> {
             .map(|(ty, item)| (L::from_id_unchecked(ty), item))
     }
 }
+
+/// Array that implements [`Default`] for any length.
+///
+/// Used as [`Lexicon::Map`] when there are more than 32 token types, for which
+/// the built-in array types don't implement [`Default`]
+#[derive(Clone)]
+pub struct LargeArray<T, const N: usize>([T; N]);
+
+impl<T: Default, const N: usize> Default for LargeArray<T, N> {
+    fn default() -> Self {
+        Self(std::array::from_fn(|_| T::default()))
+    }
+}
+
+impl<T, const N: usize> Borrow<[T]> for LargeArray<T, N> {
+    fn borrow(&self) -> &[T] {
+        &self.0
+    }
+}
+
+impl<T, const N: usize> BorrowMut<[T]> for LargeArray<T, N> {
+    fn borrow_mut(&mut self) -> &mut [T] {
+        &mut self.0
+    }
+}
-- 
2.43.0

