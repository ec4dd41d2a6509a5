From 8c32bc4de99e20be1a79ee7a7e1af59966d3dec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 01/41] fix: multistage table generator compared blocks of
 strings by object representation

Blocks of non-trivial elements (std::string) never compared equal, so the names
table had one stage-2 block per 256 code points and stage 1 (uint8_t) wrapped
around: every character name at or above U+10000 was wrong.
---
 src/libunicode/multistage_table_generator.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/libunicode/multistage_table_generator.h b/src/libunicode/multistage_table_generator.h
index 1ca8870..c07e9dc 100644
--- a/src/libunicode/multistage_table_generator.h
+++ b/src/libunicode/multistage_table_generator.h
@@ -112,7 +112,7 @@ class multistage_table_generator
 
         // Block has not been seen yet. Create a new block.
         auto const stage2Index = _output.stage2.size() / BlockSize;
-        assert(stage2Index < std::numeric_limits<Stage2ElementType>::max());
+        assert(stage2Index <= std::numeric_limits<Stage1ElementType>::max());
 
         for (SourceType index = blockStart; index < blockStart + BlockSize; ++index)
             _output.stage2.emplace_back(get_or_create_stage3_index(index));
@@ -122,15 +122,15 @@ class multistage_table_generator
         return static_cast<Stage1ElementType>(stage2Index);
     }
 
-    /// FNV-1a hash over a block of elements.
+    /// FNV-1a style hash over the values of a block of elements.
+    ///
+    /// The elements are hashed by value, not by object representation, as T may own its value indirectly (std::string).
     size_t hashBlock(size_t blockStart) const noexcept
     {
         size_t hash = 14695981039346656037ULL;
-        auto const* bytes = reinterpret_cast<char const*>(&_input[blockStart]);
-        auto const byteCount = BlockSize * sizeof(T);
-        for (size_t i = 0; i < byteCount; ++i)
+        for (size_t i = 0; i < BlockSize; ++i)
         {
-            hash ^= static_cast<size_t>(static_cast<unsigned char>(bytes[i]));
+            hash ^= static_cast<size_t>(_valueHasher(_input[blockStart + i]));
             hash *= 1099511628211ULL;
         }
         return hash;
@@ -154,7 +154,7 @@ class multistage_table_generator
 
     bool is_same_block(size_t a, size_t b) const noexcept
     {
-        return std::memcmp(&_input[a], &_input[b], BlockSize * sizeof(T)) == 0;
+        return std::equal(_input + a, _input + a + BlockSize, _input + b);
     }
 
     Stage2ElementType get_or_create_stage3_index(SourceType stage1Index)
-- 
2.43.0


From 516c9fe39d7784d33898f30227b9eb07b3f2259b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 02/41] fix: grapheme segmentation lost count of regional
 indicators not at the start of a cluster

The counter was only initialised by grapheme_process_init(), so a run of regional
indicators that starts after any other codepoint (GB9b Prepend, or every caller that
drives grapheme_process_breakable() continuously, such as scan_text()) was counted
from zero and flags were broken up, or adjacent flags merged.
---
 src/libunicode/grapheme_segmenter.cpp | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/libunicode/grapheme_segmenter.cpp b/src/libunicode/grapheme_segmenter.cpp
index c71e5fa..a408691 100644
--- a/src/libunicode/grapheme_segmenter.cpp
+++ b/src/libunicode/grapheme_segmenter.cpp
@@ -41,15 +41,12 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
     state.previousCodepoint = b;
     state.previousProperties = Pb;
 
-    {
-        // Set state.ri_counter to zero if the next codepoint is not of category Regional_Indicator.
-        //
-        // We move the state.ri_counter out to help GCC optimize
-        // this code to be branchless.
-        // Sadly only GCC succeeds in doing this and Clang fails.
-        auto const ri_counter = state.ri_counter;
-        state.ri_counter = (B == Grapheme_Cluster_Break::Regional_Indicator) ? ri_counter : 0;
-    }
+    // Count (modulo 2) the run of Regional_Indicator codepoints ending at the next codepoint,
+    // reset to zero if the next codepoint is not a Regional_Indicator.
+    // Capture previous state before updating, as GB12/GB13 needs the count preceding the boundary.
+    auto const prev_ri_counter = state.ri_counter;
+    state.ri_counter =
+        (B == Grapheme_Cluster_Break::Regional_Indicator) ? static_cast<uint8_t>((prev_ri_counter + 1) % 2) : 0;
 
     // GB3: Do not break between a CR and LF. Otherwise, break before and after controls.
     if (A == Grapheme_Cluster_Break::CR && B == Grapheme_Cluster_Break::LF)
@@ -143,11 +140,8 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
     // GB12/GB13: Do not break within emoji flag sequences.
     // That is, do not break between regional indicator (RI) symbols
     // if there is an odd number of RI characters before the break point.
-    if (A == Grapheme_Cluster_Break::Regional_Indicator && A == B && state.ri_counter == 1)
-    {
-        state.ri_counter = static_cast<uint8_t>((state.ri_counter + 1) % 2);
+    if (A == Grapheme_Cluster_Break::Regional_Indicator && A == B && prev_ri_counter == 1)
         return false;
-    }
 
     // GB999: Otherwise, break everywhere.
     return true;
-- 
2.43.0


From c3199746537563ffa36c35cdf71c96cb14f78b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 03/41] fix: GB11 joined pictographs across more than one ZWJ

GB11 is ExtPict Extend* ZWJ x ExtPict; ZWJ is not in Extend, hence
ExtPict ZWJ ZWJ ExtPict and ExtPict ZWJ Extend ZWJ ExtPict must break.
---
 src/libunicode/grapheme_segmenter.cpp | 8 +++++---
 src/libunicode/grapheme_segmenter.h   | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/libunicode/grapheme_segmenter.cpp b/src/libunicode/grapheme_segmenter.cpp
index a408691..4cb43bf 100644
--- a/src/libunicode/grapheme_segmenter.cpp
+++ b/src/libunicode/grapheme_segmenter.cpp
@@ -84,8 +84,10 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
     {
         if (Pb.is_extended_pictographic())
             state.extpic_state = 1;
-        else if ((B == Grapheme_Cluster_Break::Extend || B == Grapheme_Cluster_Break::ZWJ) && prev_extpic_state == 1)
-            ; // keep state - Extend/ZWJ extend the ExtPic chain for GB11
+        else if (B == Grapheme_Cluster_Break::Extend && prev_extpic_state == 1)
+            ; // keep state - Extend extends the ExtPic chain for GB11
+        else if (B == Grapheme_Cluster_Break::ZWJ && prev_extpic_state == 1)
+            state.extpic_state = 2; // only a single ZWJ completes the left-hand side of GB11
         else
             state.extpic_state = 0;
     }
@@ -134,7 +136,7 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
 
     // GB11: Do not break within emoji modifier sequences or emoji zwj sequences.
     // Full rule: \p{Extended_Pictographic} Extend* ZWJ × \p{Extended_Pictographic}
-    if (A == Grapheme_Cluster_Break::ZWJ && Pb.is_extended_pictographic() && prev_extpic_state == 1)
+    if (A == Grapheme_Cluster_Break::ZWJ && Pb.is_extended_pictographic() && prev_extpic_state == 2)
         return false;
 
     // GB12/GB13: Do not break within emoji flag sequences.
diff --git a/src/libunicode/grapheme_segmenter.h b/src/libunicode/grapheme_segmenter.h
index faa0c2d..7e7eec3 100644
--- a/src/libunicode/grapheme_segmenter.h
+++ b/src/libunicode/grapheme_segmenter.h
@@ -41,7 +41,8 @@ struct grapheme_segmenter_state
 
     /// GB11 Extended Pictographic tracking state:
     /// 0 = no ExtPic context
-    /// 1 = saw ExtPic (or ExtPic followed by Extend*/ZWJ chain)
+    /// 1 = saw ExtPic Extend*
+    /// 2 = saw ExtPic Extend* ZWJ (ready for GB11)
     uint8_t extpic_state = 0;
 };
 
-- 
2.43.0


From 61cc930bc95b1ae71fa117e19c5ebc3e80c35fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 04/41] fix: composition moved combining marks in front of
 their starter

compose() appended marks that do not compose while the starter was only
appended once the next starter was seen, e.g. NFC("x\u0323") became
"\u0323x".
---
 src/libunicode/normalization.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index a617c64..bbff78d 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -202,7 +202,9 @@ namespace
         if (i >= decomposed.size())
             return result;
 
-        char32_t starter = decomposed[i++];
+        // The starter is kept at its place in the result, as the characters it does not compose with follow it.
+        size_t starterIndex = result.size();
+        result.push_back(decomposed[i++]);
         uint8_t last_ccc = 0;
 
         while (i < decomposed.size())
@@ -214,19 +216,19 @@ namespace
             char32_t composed = 0;
             if (last_ccc < ccc || last_ccc == 0)
             {
-                composed = try_compose(starter, cp);
+                composed = try_compose(result[starterIndex], cp);
             }
 
             if (composed != 0 && !is_composition_exclusion(composed))
             {
                 // Composition succeeded
-                starter = composed;
+                result[starterIndex] = composed;
             }
             else if (ccc == 0)
             {
                 // New starter
-                result.push_back(starter);
-                starter = cp;
+                starterIndex = result.size();
+                result.push_back(cp);
                 last_ccc = 0;
             }
             else
@@ -239,7 +241,6 @@ namespace
             ++i;
         }
 
-        result.push_back(starter);
         return result;
     }
 
-- 
2.43.0


From ecc154391158bd73d3600639449b485a858d001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 05/41] fix: composition swallowed U+11A7 after a Hangul LV
 syllable

TBase itself is not a trailing consonant (Unicode 3.12, TIndex 0 means
there is none).
---
 src/libunicode/normalization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index bbff78d..4d3cd19 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -104,7 +104,7 @@ namespace
         {
             if ((first - hangul::SBase) % hangul::TCount == 0)
             {
-                if (second >= hangul::TBase && second < hangul::TBase + hangul::TCount)
+                if (second > hangul::TBase && second < hangul::TBase + hangul::TCount)
                 {
                     // LV + T -> LVT
                     return first + (second - hangul::TBase);
-- 
2.43.0


From 1c2530a8b458472f266add9d16e4b4e92164ae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 06/41] fix: streaming normalizer split before starters that
 decompose to non-starters

U+0F73, U+0F75, U+0F81 (and U+FF9E, U+FF9F in NFKD) are starters whose
decomposition begins with a combining mark that has to be reordered together
with the preceding ones, hence they are no boundary.
---
 src/libunicode/normalization.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index 4d3cd19..d63577b 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -548,9 +548,18 @@ bool normalizer::is_boundary(char32_t codepoint) const noexcept
     if (canonical_combining_class(codepoint) != 0)
         return false;
 
-    // For decomposition forms, every starter is a safe boundary
+    // For decomposition forms, every starter is a safe boundary,
+    // unless its decomposition starts with a non-starter (such as U+0F73).
     if (_form == Normalization_Form::NFD || _form == Normalization_Form::NFKD)
-        return true;
+    {
+        auto const compatibility = _form == Normalization_Form::NFKD;
+        if (compatibility ? nfkd_quick_check(codepoint) : nfd_quick_check(codepoint))
+            return true;
+
+        std::u32string decomposed;
+        decompose_recursive(codepoint, decomposed, compatibility);
+        return canonical_combining_class(decomposed.front()) == 0;
+    }
 
     // For composition forms, a starter is safe only if its quick-check value
     // is Yes (it cannot compose with the preceding segment)
-- 
2.43.0


From b847106afbad63f0b2d8b107ea2ce1e4ea9ad5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 07/41] fix: utf8_normalizer::flush() kept an incomplete UTF-8
 sequence

The bytes were not reported as invalid and corrupted the first codepoint
fed after the flush.
---
 src/libunicode/normalization.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index d63577b..554a20c 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -639,6 +639,14 @@ std::string_view utf8_normalizer::flush()
 {
     _utf8Output.clear();
 
+    if (_utf8State.expectedLength)
+    {
+        // Input ended within a UTF-8 sequence: replace it with U+FFFD as any other invalid sequence.
+        _utf8State = {};
+        if (auto const segment = _inner.feed(char32_t { 0xFFFD }); !segment.empty())
+            convert_to<char>(segment, std::back_inserter(_utf8Output));
+    }
+
     auto segment = _inner.flush();
     if (!segment.empty())
         convert_to<char>(segment, std::back_inserter(_utf8Output));
-- 
2.43.0


From 2ea4f94030aafa260e5ea49265b0c793b85b0831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 08/41] fix: UTF-8 decoder swallowed the character following a
 truncated sequence

decoder<char> took any byte as a continuation byte, so that e.g. the 'A' in
"\xC3" "A" was lost, and made up a codepoint from it.
---
 src/libunicode/convert.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libunicode/convert.h b/src/libunicode/convert.h
index 5b57e0b..e8069d8 100644
--- a/src/libunicode/convert.h
+++ b/src/libunicode/convert.h
@@ -69,6 +69,10 @@ struct decoder<char> // {{{
 
     constexpr std::optional<char32_t> operator()(uint8_t byte)
     {
+        // Drop an incomplete sequence that is not being continued, instead of swallowing the byte that interrupted it.
+        if (expectedLength && (byte & 0b1100'0000) != 0b1000'0000)
+            expectedLength = 0;
+
         if (!expectedLength)
         {
             if ((byte & 0b1000'0000) == 0)
-- 
2.43.0


From c02f75c4af7ce3059d7f42cd8d9516ac869dc7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 09/41] fix: from_utf8() took ASCII bytes as continuation bytes

An ASCII byte following a truncated sequence was swallowed as if it was a
continuation byte, as was any byte 0xF8..0xFF.
---
 src/libunicode/utf8.cpp | 10 ++++------
 src/libunicode/utf8.h   | 15 ++++++++++++---
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/libunicode/utf8.cpp b/src/libunicode/utf8.cpp
index 082e607..78c424b 100644
--- a/src/libunicode/utf8.cpp
+++ b/src/libunicode/utf8.cpp
@@ -50,17 +50,15 @@ ConvertResult from_utf8(utf8_decoder_state& state, uint8_t value) noexcept
             return Invalid {};
         }
     }
-    // clang-format off
-    else if ((value & 0b1110'0000) == 0b1100'0000
-          || (value & 0b1111'0000) == 0b1110'0000
-          || (value & 0b1111'1000) == 0b1111'0000)
-    // clang-format on
+    else if ((value & 0b1100'0000) != 0b1000'0000)
     {
         // We have a new codepoint, but the previous one was incomplete.
         state.expectedLength = 0;
         // Return Invalid for the current incomplete codepoint,
         // but have already started the next codepoint.
-        from_utf8(state, value);
+        auto const result = from_utf8(state, value);
+        if (std::holds_alternative<Success>(result))
+            return result; // A single-byte codepoint is complete already and must not get lost.
         return { Invalid {} };
     }
     else
diff --git a/src/libunicode/utf8.h b/src/libunicode/utf8.h
index b0cb278..f25c0b3 100644
--- a/src/libunicode/utf8.h
+++ b/src/libunicode/utf8.h
@@ -126,12 +126,21 @@ inline ConvertResult from_utf8(uint8_t const* bytes, size_t* size)
     auto state = utf8_decoder_state {};
     auto result = ConvertResult {};
 
+    auto const* input = bytes;
+
     do
-        result = from_utf8(state, *bytes++);
-    while (std::holds_alternative<Incomplete>(result));
+    {
+        if (state.expectedLength && (*input & 0b1100'0000) != 0b1000'0000)
+        {
+            // Incomplete sequence: the byte interrupting it is not part of it.
+            result = Invalid {};
+            break;
+        }
+        result = from_utf8(state, *input++);
+    } while (std::holds_alternative<Incomplete>(result));
 
     if (size)
-        *size = state.currentLength;
+        *size = static_cast<size_t>(input - bytes);
 
     return result;
 }
-- 
2.43.0


From d643568aafd985c562378d4f85d961a72229745c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 10/41] fix: convert_to() read past the end of truncated input

The iterator based decoders read the remaining units of a sequence without
knowing the end of the input, so that a truncated UTF-8 sequence or a trailing
high surrogate made convert_to() read out of bounds, and never stop if the end
was skipped.
---
 src/libunicode/convert.h | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/libunicode/convert.h b/src/libunicode/convert.h
index e8069d8..a6b7c49 100644
--- a/src/libunicode/convert.h
+++ b/src/libunicode/convert.h
@@ -340,15 +340,31 @@ OutputIterator convert_to(std::basic_string_view<S> input, OutputIterator output
         return detail::convert_identity(input, output);
     else
     {
-        auto i = begin(input);
-        auto e = end(input);
         decoder<S> read {};
         encoder<T> write {};
-        while (i != e)
+        if constexpr (std::is_same_v<S, char>)
         {
-            auto const outChar = read(i);
-            if (outChar.has_value())
-                output = write(outChar.value(), output);
+            // Decode bytewise, as the input may end within a multi-byte sequence.
+            for (char const byte: input)
+                if (auto const outChar = read(static_cast<uint8_t>(byte)); outChar.has_value())
+                    output = write(outChar.value(), output);
+        }
+        else
+        {
+            auto i = begin(input);
+            auto e = end(input);
+            while (i != e)
+            {
+                if constexpr (sizeof(S) == 2)
+                {
+                    // The input may end with an unpaired high surrogate, which is to be skipped as any other.
+                    if (std::next(i) == e && *i >= 0xD800 && *i < 0xDC00)
+                        break;
+                }
+                auto const outChar = read(i);
+                if (outChar.has_value())
+                    output = write(outChar.value(), output);
+            }
         }
         return output;
     }
-- 
2.43.0


From b5e123536177277524aa602293827434ad7e8cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 11/41] fix: u32u8_convert() refused an exactly fitting
 destination buffer

---
 src/libunicode/capi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libunicode/capi.cpp b/src/libunicode/capi.cpp
index cb2b105..dafa4dd 100644
--- a/src/libunicode/capi.cpp
+++ b/src/libunicode/capi.cpp
@@ -110,7 +110,7 @@ int u32u8_convert(u32_char_t const* source, size_t slen, u8_char_t* dest, size_t
         u8_char_t buf[4];
         auto const bufEnd = conv(source[i], buf);
         auto const bufLength = static_cast<size_t>(std::distance(buf, bufEnd));
-        if (!(bufLength < dlen))
+        if (bufLength > dlen)
             return -1;
 
         for (size_t k = 0; k < bufLength; ++k)
-- 
2.43.0


From 91b1bb31b5cc79ff78939e56f05f20f7d3d5008f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 12/41] fix: u32_gc_width() accessed the first codepoint of an
 empty string

---
 src/libunicode/capi.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libunicode/capi.cpp b/src/libunicode/capi.cpp
index dafa4dd..c4d9213 100644
--- a/src/libunicode/capi.cpp
+++ b/src/libunicode/capi.cpp
@@ -43,6 +43,9 @@ int u8_gc_count(u8_char_t const* codepoints, size_t size)
 
 int u32_gc_width(u32_char_t const* codepoints, size_t size, int mode)
 {
+    if (!size)
+        return 0;
+
     auto const text = std::u32string_view(reinterpret_cast<char32_t const*>(codepoints), size);
     auto totalWidth = 0;
     auto segmenter = unicode::grapheme_segmenter(text);
-- 
2.43.0


From 476dafefba6a181581d61313730e7d479766443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 13/41] fix: utf8_grapheme_segmenter decoded a truncated
 sequence at the end as U+0000

---
 src/libunicode/utf8_grapheme_segmenter.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libunicode/utf8_grapheme_segmenter.h b/src/libunicode/utf8_grapheme_segmenter.h
index 37dc094..8b91544 100644
--- a/src/libunicode/utf8_grapheme_segmenter.h
+++ b/src/libunicode/utf8_grapheme_segmenter.h
@@ -131,8 +131,9 @@ inline char32_t utf8_grapheme_segmenter::iterator::consumeCodepoint() noexcept
             return result;
         }
     }
+    // An incomplete sequence at the end of the text is invalid as well.
     auto const result = _nextCodepoint;
-    _nextCodepoint = 0;
+    _nextCodepoint = _nextCodepointStart != _end ? ReplacementChar : 0;
     return result;
 }
 
-- 
2.43.0


From 53339499cdf0f24ada95fa8720864d5cb5c8f6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 14/41] fix: scan_text() left its state behind when putting
 text back or on invalid UTF-8

- A codepoint or cluster that does not fit was put back, but the segmentation
  and UTF-8 decoder state had moved past it already, so resuming decoded the
  remainder of a split codepoint as invalid or compared a codepoint to itself.
- A lead byte revealing the preceding sequence to be incomplete was dropped, its
  continuation bytes were then reported as invalid one by one.
- Bytes of an invalid sequence were handed to the receiver as a cluster as well,
  and were left out of the result range if nothing followed them.
- An invalid sequence was counted even when no column was left.
---
 src/libunicode/scan.cpp | 53 ++++++++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/src/libunicode/scan.cpp b/src/libunicode/scan.cpp
index 70b8aa0..3474d78 100644
--- a/src/libunicode/scan.cpp
+++ b/src/libunicode/scan.cpp
@@ -90,7 +90,11 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
     char const* input = start;
     char const* clusterStart = start;
 
-    unsigned byteCount = 0; // bytes consumed for the current codepoint
+    // Where the codepoint being decoded starts in this text (the read position if there is none), and the
+    // state as of there, as well as the state as of clusterStart, to get back to whenever these are put back.
+    char const* codepointStart = start;
+    scan_state codepointState = state;
+    scan_state clusterState = state;
 
     // How much of the open cluster's width THIS call has contributed. The cluster may have been
     // opened by an earlier call, whose columns are already spent and cannot be taken back here, so
@@ -118,8 +122,16 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
         // part of its multi-byte codepoint.
         if (is_control(*input) || !is_complex(*input) || (state.utf8.expectedLength == 0 && is_c1_control(*input)))
         {
+            if (state.utf8.expectedLength && count == maxColumnCount)
+            {
+                // The incomplete sequence won't fit. Break at its start.
+                state = codepointState;
+                input = codepointStart;
+                break;
+            }
+
             // A control ends whatever cluster was open, so hand it over before dropping the state.
-            flushOpenCluster(input);
+            flushOpenCluster(codepointStart);
 
             // Incomplete UTF-8 sequence hit. That's invalid as well.
             if (state.utf8.expectedLength)
@@ -127,6 +139,7 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
                 ++count;
                 receiver.receiveInvalidGraphemeCluster();
                 state.utf8 = {};
+                clusterStart = input;
             }
             state.lastCodepointHint = 0;
             state.graphemeState = {};
@@ -136,8 +149,10 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
             break;
         }
 
+        if (input == codepointStart)
+            codepointState = state;
+
         auto const result = from_utf8(state.utf8, static_cast<uint8_t>(*input++));
-        ++byteCount;
 
         if (holds_alternative<Incomplete>(result))
             continue;
@@ -146,8 +161,6 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
         {
             auto const prevCodepoint = state.lastCodepointHint;
             auto const nextCodepoint = get<Success>(result).value;
-            char const* const codepointStart = input - byteCount;
-            byteCount = 0;
             state.lastCodepointHint = nextCodepoint;
 
             bool const breakable = [&] {
@@ -169,12 +182,14 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
                 if (count + nextWidth > maxColumnCount)
                 {
                     // Currently scanned grapheme cluster won't fit. Break at its start.
+                    state = codepointState;
                     input = codepointStart;
                     break;
                 }
 
                 // The cluster that just ended spans everything up to this codepoint.
                 flushOpenCluster(codepointStart);
+                clusterState = codepointState;
 
                 count += nextWidth;
                 clusterWidthCountedHere = nextWidth;
@@ -199,10 +214,9 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
                         // back -- a caller cannot render part of one -- and un-count only what this
                         // call contributed to it.
                         count -= clusterWidthCountedHere;
+                        state = clusterState;
                         input = clusterStart;
-                        resultEnd = clusterStart;
-                        state.clusterWidth.reset();
-                        state.reportedClusterWidth = 0;
+                        resultEnd = clusterStart == start ? resultStart : clusterStart;
                         break;
                     }
                     count += added;
@@ -217,11 +231,20 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
                 state.reportedClusterWidth = updatedWidth;
                 resultEnd = input;
             }
+            codepointStart = input;
         }
         else
         {
             assert(holds_alternative<Invalid>(result));
-            flushOpenCluster(input - byteCount);
+            if (count == maxColumnCount)
+            {
+                // The invalid sequence won't fit. Break at its start.
+                state = codepointState;
+                input = codepointStart;
+                break;
+            }
+
+            flushOpenCluster(codepointStart);
             count++;
             receiver.receiveInvalidGraphemeCluster();
             clusterWidthCountedHere = 0;
@@ -229,8 +252,14 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
             state.reportedClusterWidth = 0;
             state.lastCodepointHint = 0;
             state.graphemeState = {};
-            state.utf8.expectedLength = 0;
-            byteCount = 0;
+
+            // The byte that revealed the sequence to be incomplete may have started the next codepoint already.
+            codepointStart = state.utf8.expectedLength ? input - 1 : input;
+            clusterStart = codepointStart;
+            resultEnd = codepointStart;
+            codepointState = state;
+            codepointState.utf8 = {};
+            clusterState = codepointState;
         }
     }
 
@@ -277,6 +306,8 @@ scan_result scan_text(scan_state& state,
     if (state.utf8.expectedLength != 0)
     {
         result = detail::scan_for_text_nonascii(state, text, maxColumnCount, receiver);
+        if (state.utf8.expectedLength != 0)
+            return result; // Still incomplete, or did not fit.
         text = std::string_view(result.end, static_cast<size_t>(std::distance(result.end, text.data() + text.size())));
     }
 
-- 
2.43.0


From c3f0df5e093e4b7b2f41b526058803eecb0f045e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 15/41] fix: scan_text() joined clusters across a C0 control
 following ASCII text

---
 src/libunicode/scan.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libunicode/scan.cpp b/src/libunicode/scan.cpp
index 3474d78..f14389d 100644
--- a/src/libunicode/scan.cpp
+++ b/src/libunicode/scan.cpp
@@ -322,7 +322,17 @@ scan_result scan_text(scan_state& state,
             case NextState::Trivial: {
                 auto const count = detail::scan_for_text_ascii(text, maxColumnCount - result.count);
                 if (!count)
+                {
+                    // A control ends whatever cluster was open.
+                    if (is_control(text.front()))
+                    {
+                        state.lastCodepointHint = 0;
+                        state.graphemeState = {};
+                        state.clusterWidth.reset();
+                        state.reportedClusterWidth = 0;
+                    }
                     return result;
+                }
                 receiver.receiveAsciiSequence(text.substr(0, count));
 
                 // A cluster does not have to respect the boundary between the two scanners: the last
-- 
2.43.0


From 891940aaaf88f55a0dd16df054d946f15c8550db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 16/41] fix: word_process_init() kept a flag of the previous
 text

---
 src/libunicode/word_segmenter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libunicode/word_segmenter.cpp b/src/libunicode/word_segmenter.cpp
index c3a50d0..b1d840f 100644
--- a/src/libunicode/word_segmenter.cpp
+++ b/src/libunicode/word_segmenter.cpp
@@ -88,6 +88,7 @@ void word_process_init(char32_t firstCodepoint, word_segmenter_state& state) noe
 
     state.raw_prev_wb = wb;
     state.prev_prev_wb = Word_Break::Other;
+    state.saw_transparent = false;
 
     if (is_transparent(wb))
     {
-- 
2.43.0


From 2024ec64c5f7da5d66ce4c6c97cf898299482c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 17/41] fix: is_full_composition_exclusion() left out
 singletons and non-starter decompositions

---
 src/libunicode/normalization.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index 554a20c..adfdcf2 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -298,7 +298,8 @@ bool is_composition_exclusion(char32_t codepoint) noexcept
 
 bool is_full_composition_exclusion(char32_t codepoint) noexcept
 {
-    return is_composition_exclusion(codepoint);
+    // The characters that never occur in NFC are exactly those with Full_Composition_Exclusion (UAX #15, Section 5).
+    return nfc_quick_check(codepoint) == NFC_Quick_Check::No;
 }
 
 // ============================================================================
-- 
2.43.0


From 441fb8a4725a32e609e0169a4dfdcc21943c8753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 18/41] fix: scan_text() counted an invalid sequence again
 after putting back the cluster behind it

---
 src/libunicode/scan.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libunicode/scan.cpp b/src/libunicode/scan.cpp
index f14389d..8bcb8aa 100644
--- a/src/libunicode/scan.cpp
+++ b/src/libunicode/scan.cpp
@@ -103,6 +103,7 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
 
     char const* resultStart = state.utf8.expectedLength ? start - state.utf8.currentLength : start;
     char const* resultEnd = resultStart;
+    char const* clusterResultEnd = resultEnd; // as of clusterStart
 
     // Hands over the cluster spanning [clusterStart, clusterEnd). Called at every cluster boundary
     // and once more when the scan ends, so the last cluster is not dropped. A cluster put back
@@ -190,6 +191,7 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
                 // The cluster that just ended spans everything up to this codepoint.
                 flushOpenCluster(codepointStart);
                 clusterState = codepointState;
+                clusterResultEnd = resultEnd;
 
                 count += nextWidth;
                 clusterWidthCountedHere = nextWidth;
@@ -216,7 +218,7 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
                         count -= clusterWidthCountedHere;
                         state = clusterState;
                         input = clusterStart;
-                        resultEnd = clusterStart == start ? resultStart : clusterStart;
+                        resultEnd = clusterResultEnd;
                         break;
                     }
                     count += added;
@@ -257,6 +259,7 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
             codepointStart = state.utf8.expectedLength ? input - 1 : input;
             clusterStart = codepointStart;
             resultEnd = codepointStart;
+            clusterResultEnd = resultEnd;
             codepointState = state;
             codepointState.utf8 = {};
             clusterState = codepointState;
-- 
2.43.0


From 987ba7abb322548bd5f84fab7db974a492411775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:26 +0000
Subject: [PATCH 19/41] fix: capi.h could not be included from C

The extern "C" block was guarded the wrong way round: C compilers got it, C++ did not.
---
 src/libunicode/capi.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libunicode/capi.h b/src/libunicode/capi.h
index 8948ba6..7834dd0 100644
--- a/src/libunicode/capi.h
+++ b/src/libunicode/capi.h
@@ -17,7 +17,7 @@
 #include <stddef.h>
 #include <stdint.h>
 
-#if !defined(__cplusplus)
+#if defined(__cplusplus)
 extern "C"
 {
 #endif
@@ -215,7 +215,7 @@ extern "C"
      */
     int u32u8_convert(u32_char_t const* source, size_t slen, u8_char_t* dest, size_t dlen);
 
-#if !defined(__cplusplus)
+#if defined(__cplusplus)
 }
 #endif
 
-- 
2.43.0


From e43c8af8699d569ffd126b7e8f89eef5151ae1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 20/41] fix: u32_is_valid_codepoint() lacked its closing
 parenthesis

---
 src/libunicode/capi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libunicode/capi.h b/src/libunicode/capi.h
index 7834dd0..5cf8ade 100644
--- a/src/libunicode/capi.h
+++ b/src/libunicode/capi.h
@@ -38,7 +38,7 @@ extern "C"
  * Verifies that _p codepoint is a valid codepoint,
  */
 #define u32_is_valid_codepoint(_codepoint) \
-    ((_codepoint) < 0xD800 || ((_codepoint) > 0xDFFF && (_codepoint) <= 0x10FFFF)
+    ((_codepoint) < 0xD800 || ((_codepoint) > 0xDFFF && (_codepoint) <= 0x10FFFF))
 
 /**
  * Extracts the unused higher order bits and moves them bit-wise to the right.
-- 
2.43.0


From 2009f49c1b0cb480f95c89227b20fedcec3160f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 21/41] fix: unicode-query asserted on unassigned codepoints

The age of such a codepoint has no version to print.
---
 src/tools/unicode-query.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/unicode-query.cpp b/src/tools/unicode-query.cpp
index 18bf2cd..a343135 100644
--- a/src/tools/unicode-query.cpp
+++ b/src/tools/unicode-query.cpp
@@ -131,6 +131,8 @@ string prettyAge(unicode::Age age)
     // clang-format off
     string str = [=]() { auto s = ostringstream(); s << age; return s.str(); }();
     // clang-format on
+    if (age == unicode::Age::Unassigned)
+        return str;
     assert(str.at(0) == 'V');
     str = str.substr(1);
     replace(str.begin(), str.end(), '_', '.');
-- 
2.43.0


From 38e525d89071d50470d35f3badd03d6771f05e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 22/41] fix: unicode-query took codepoint values that do not
 fit for U+0000

---
 src/tools/unicode-query.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/unicode-query.cpp b/src/tools/unicode-query.cpp
index a343135..2ec59f4 100644
--- a/src/tools/unicode-query.cpp
+++ b/src/tools/unicode-query.cpp
@@ -102,7 +102,7 @@ optional<char32_t> parseChar(std::string_view text)
 
     auto value = uint32_t {};
     auto const result = std::from_chars(text.data(), text.data() + text.size(), value, 16);
-    if (result.ptr != text.data() + text.size())
+    if (result.ec != std::errc {} || result.ptr != text.data() + text.size())
         return nullopt;
     return { static_cast<char32_t>(value) };
 }
-- 
2.43.0


From d64e8832e27f8fb6a206a63fb9e549d0f4cc880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 23/41] fix: uc-inspect escaped only every other one of
 consecutive escape characters

---
 src/tools/uc-inspect.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/uc-inspect.cpp b/src/tools/uc-inspect.cpp
index a397d3e..1eda469 100644
--- a/src/tools/uc-inspect.cpp
+++ b/src/tools/uc-inspect.cpp
@@ -73,7 +73,7 @@ basic_string<T> replaceAll(basic_string_view<T> what, basic_string_view<T> with,
         s += text.substr(a, b - a);
         s += with;
         a = b + what.size();
-        b = text.find(what, a + 1);
+        b = text.find(what, a);
     }
     s += text.substr(a);
     return s;
-- 
2.43.0


From 7750ab45fb2bbfefba0daed295417b06c681817f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 24/41] fix: uc-inspect did not compile for want of the
 formatters of the enumerations

---
 src/tools/uc-inspect.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/uc-inspect.cpp b/src/tools/uc-inspect.cpp
index 1eda469..430b57f 100644
--- a/src/tools/uc-inspect.cpp
+++ b/src/tools/uc-inspect.cpp
@@ -16,6 +16,7 @@
 #include <libunicode/grapheme_segmenter.h>
 #include <libunicode/run_segmenter.h>
 #include <libunicode/ucd.h>
+#include <libunicode/ucd_fmt.h>
 #include <libunicode/ucd_ostream.h>
 #include <libunicode/utf8.h>
 #include <libunicode/width.h>
-- 
2.43.0


From fe07953dff67c6b8f8926d5c2d846a778cb3f442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 25/41] fix: unicode-query padded the hexadecimal digits of
 escapes with blanks

---
 src/tools/unicode-query.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/unicode-query.cpp b/src/tools/unicode-query.cpp
index 2ec59f4..7397a63 100644
--- a/src/tools/unicode-query.cpp
+++ b/src/tools/unicode-query.cpp
@@ -45,7 +45,7 @@ std::string escapeControlCodes(std::string const& text)
     for (char const ch: text)
     {
         if (ch < 0x20)
-            result << "\\x" << setw(2) << std::hex << (unsigned(ch) & 0xFF);
+            result << "\\x" << setw(2) << setfill('0') << std::hex << (unsigned(ch) & 0xFF);
         else
             result << ch;
     }
@@ -60,7 +60,7 @@ std::string escaped(std::string const& text)
         if (std::isprint(ch) && ch != '"')
             result << ch;
         else
-            result << "\\x" << setw(2) << std::hex << (unsigned(ch) & 0xFF);
+            result << "\\x" << setw(2) << setfill('0') << std::hex << (unsigned(ch) & 0xFF);
     }
     return result.str();
 }
-- 
2.43.0


From 2cb6111565176b0b86d60c663df4ea0815d128b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 26/41] fix: unicode-query took all non-ASCII text for control
 codes

where char is signed, and passed negative values to isprint().
---
 src/tools/unicode-query.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/unicode-query.cpp b/src/tools/unicode-query.cpp
index 7397a63..d2da2c0 100644
--- a/src/tools/unicode-query.cpp
+++ b/src/tools/unicode-query.cpp
@@ -44,7 +44,7 @@ std::string escapeControlCodes(std::string const& text)
     auto result = stringstream {};
     for (char const ch: text)
     {
-        if (ch < 0x20)
+        if (static_cast<unsigned char>(ch) < 0x20)
             result << "\\x" << setw(2) << setfill('0') << std::hex << (unsigned(ch) & 0xFF);
         else
             result << ch;
@@ -57,7 +57,7 @@ std::string escaped(std::string const& text)
     auto result = stringstream {};
     for (char const ch: text)
     {
-        if (std::isprint(ch) && ch != '"')
+        if (std::isprint(static_cast<unsigned char>(ch)) && ch != '"')
             result << ch;
         else
             result << "\\x" << setw(2) << setfill('0') << std::hex << (unsigned(ch) & 0xFF);
-- 
2.43.0


From f0fec6d2ef644807efe59cb810826bf6f5d2d96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:25 +0000
Subject: [PATCH 27/41] fix: unicode_tablegen reported success when its output
 could not be written

---
 src/libunicode/tablegen/case_norm_generator.cpp  | 3 +++
 src/libunicode/tablegen/enum_generator.cpp       | 7 +++++++
 src/libunicode/tablegen/multistage_generator.cpp | 8 ++++++++
 src/libunicode/tablegen/ucd_api_generator.cpp    | 5 +++++
 4 files changed, 23 insertions(+)

diff --git a/src/libunicode/tablegen/case_norm_generator.cpp b/src/libunicode/tablegen/case_norm_generator.cpp
index 09d5381..9d3f94f 100644
--- a/src/libunicode/tablegen/case_norm_generator.cpp
+++ b/src/libunicode/tablegen/case_norm_generator.cpp
@@ -18,6 +18,7 @@
 #include <fstream>
 #include <map>
 #include <set>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -364,6 +365,8 @@ namespace unicode::detail
     out << "// clang-format on\n";
     out << "\n";
     out << "} // namespace unicode::detail\n";
+    if (!out.flush())
+        throw std::runtime_error("Failed to write file: " + outputDir + "/case_normalization_data.h");
 }
 
 } // namespace tablegen
diff --git a/src/libunicode/tablegen/enum_generator.cpp b/src/libunicode/tablegen/enum_generator.cpp
index 86b451a..be1948a 100644
--- a/src/libunicode/tablegen/enum_generator.cpp
+++ b/src/libunicode/tablegen/enum_generator.cpp
@@ -17,6 +17,7 @@
 #include <format>
 #include <fstream>
 #include <set>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -244,6 +245,8 @@ void generateEnumFiles(UcdParser const& parser, std::string const& outputDir)
         for (auto const& def: enums)
             writeEnumClass(out, def);
         out << "} // namespace unicode\n";
+        if (!out.flush())
+            throw std::runtime_error("Failed to write file: " + outputDir + "/ucd_enums.h");
     }
 
     // ---- ucd_ostream.h ----
@@ -260,6 +263,8 @@ void generateEnumFiles(UcdParser const& parser, std::string const& outputDir)
         for (auto const& def: enums)
             writeEnumOstream(out, def);
         out << "} // namespace unicode\n";
+        if (!out.flush())
+            throw std::runtime_error("Failed to write file: " + outputDir + "/ucd_ostream.h");
     }
 
     // ---- ucd_fmt.h ----
@@ -274,6 +279,8 @@ void generateEnumFiles(UcdParser const& parser, std::string const& outputDir)
         out << "\n";
         for (auto const& def: enums)
             writeEnumFormatter(out, def);
+        if (!out.flush())
+            throw std::runtime_error("Failed to write file: " + outputDir + "/ucd_fmt.h");
     }
 }
 
diff --git a/src/libunicode/tablegen/multistage_generator.cpp b/src/libunicode/tablegen/multistage_generator.cpp
index 5c58c09..7af8de8 100644
--- a/src/libunicode/tablegen/multistage_generator.cpp
+++ b/src/libunicode/tablegen/multistage_generator.cpp
@@ -22,6 +22,7 @@
 #include <iomanip>
 #include <iostream>
 #include <map>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -727,6 +728,13 @@ void generateMultistageFiles(UcdParser const& parser, std::string const& outputD
     namesFile << "} // end namespace " << namespaceName << "\n";
 
     header << "\n} // end namespace " << namespaceName << "\n";
+
+    if (!header.flush())
+        throw std::runtime_error("Failed to write file: " + headerPath);
+    if (!impl.flush())
+        throw std::runtime_error("Failed to write file: " + implPath);
+    if (!namesFile.flush())
+        throw std::runtime_error("Failed to write file: " + namesPath);
 }
 
 } // namespace tablegen
diff --git a/src/libunicode/tablegen/ucd_api_generator.cpp b/src/libunicode/tablegen/ucd_api_generator.cpp
index 7cfd1d2..83acf00 100644
--- a/src/libunicode/tablegen/ucd_api_generator.cpp
+++ b/src/libunicode/tablegen/ucd_api_generator.cpp
@@ -18,6 +18,7 @@
 #include <fstream>
 #include <map>
 #include <set>
+#include <stdexcept>
 #include <string>
 
 #include "enum_utils.h"
@@ -614,6 +615,10 @@ namespace unicode
     // ---- File footers ----
     header << "} // namespace unicode\n";
     impl << "} // namespace unicode\n";
+    if (!header.flush())
+        throw std::runtime_error("Failed to write file: " + outputDir + "/ucd.h");
+    if (!impl.flush())
+        throw std::runtime_error("Failed to write file: " + outputDir + "/ucd.cpp");
 }
 
 } // namespace tablegen
-- 
2.43.0


From 5c451835423ab56e94189e836db4248aaa00a2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:11 +0000
Subject: [PATCH 28/41] fix: normalizer::is_boundary() could throw out of
 memory although noexcept

---
 src/libunicode/normalization.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index adfdcf2..97dd2a5 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -156,6 +156,23 @@ namespace
             decompose_recursive(c, output, compatibility);
     }
 
+    // First codepoint of the full decomposition
+    [[nodiscard]] char32_t first_of_decomposition(char32_t cp, bool compatibility) noexcept
+    {
+        while (true)
+        {
+            auto decomp = find_decomposition(detail::canonical_decomposition_table, cp);
+
+            if (decomp.empty() && compatibility)
+                decomp = find_decomposition(detail::compatibility_decomposition_table, cp);
+
+            if (decomp.empty())
+                return cp;
+
+            cp = decomp.front();
+        }
+    }
+
     // Canonical ordering of combining marks
     void canonical_order(std::u32string& text)
     {
@@ -557,9 +574,7 @@ bool normalizer::is_boundary(char32_t codepoint) const noexcept
         if (compatibility ? nfkd_quick_check(codepoint) : nfd_quick_check(codepoint))
             return true;
 
-        std::u32string decomposed;
-        decompose_recursive(codepoint, decomposed, compatibility);
-        return canonical_combining_class(decomposed.front()) == 0;
+        return canonical_combining_class(first_of_decomposition(codepoint, compatibility)) == 0;
     }
 
     // For composition forms, a starter is safe only if its quick-check value
-- 
2.43.0


From ea7c3a244744633bee643424786c66f604f7a437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:08 +0000
Subject: [PATCH 29/41] fix: canonical ordering took quadratic time on long
 sequences of combining marks

---
 src/libunicode/normalization.cpp | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index 97dd2a5..1a1a610 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -176,25 +176,16 @@ namespace
     // Canonical ordering of combining marks
     void canonical_order(std::u32string& text)
     {
-        if (text.size() < 2)
-            return;
+        // Sort each sequence of combining marks by CCC (stable)
+        auto const starter = [](char32_t cp) { return canonical_combining_class(cp) == 0; };
+        auto const lower = [](char32_t a, char32_t b) { return canonical_combining_class(a) < canonical_combining_class(b); };
 
-        // Bubble sort adjacent combining marks by CCC (stable)
-        for (size_t i = 1; i < text.size(); ++i)
+        for (auto i = text.begin(); i != text.end();)
         {
-            auto const ccc_i = canonical_combining_class(text[i]);
-            if (ccc_i == 0)
-                continue; // Starter, no reordering needed
-
-            size_t j = i;
-            while (j > 0)
-            {
-                auto const ccc_prev = canonical_combining_class(text[j - 1]);
-                if (ccc_prev == 0 || ccc_prev <= ccc_i)
-                    break;
-                std::swap(text[j - 1], text[j]);
-                --j;
-            }
+            auto const first = std::find_if_not(i, text.end(), starter);
+            i = std::find_if(first, text.end(), starter);
+            if (!std::is_sorted(first, i, lower))
+                std::stable_sort(first, i, lower);
         }
     }
 
-- 
2.43.0


From ed4e475a4cbe8e744c7bccac25ebc1191f908580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:24 +0000
Subject: [PATCH 30/41] fix: multistage table generator truncated indices that
 do not fit, without assertions

---
 src/libunicode/multistage_table_generator.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libunicode/multistage_table_generator.h b/src/libunicode/multistage_table_generator.h
index c07e9dc..8886569 100644
--- a/src/libunicode/multistage_table_generator.h
+++ b/src/libunicode/multistage_table_generator.h
@@ -112,7 +112,8 @@ class multistage_table_generator
 
         // Block has not been seen yet. Create a new block.
         auto const stage2Index = _output.stage2.size() / BlockSize;
-        assert(stage2Index <= std::numeric_limits<Stage1ElementType>::max());
+        if (stage2Index > static_cast<size_t>(std::numeric_limits<Stage1ElementType>::max()))
+            throw std::length_error("multistage table: too many different blocks for the element type of stage 1");
 
         for (SourceType index = blockStart; index < blockStart + BlockSize; ++index)
             _output.stage2.emplace_back(get_or_create_stage3_index(index));
@@ -163,9 +164,11 @@ class multistage_table_generator
         if (auto it = _stage3Map.find(value); it != _stage3Map.end())
             return it->second;
 
+        if (_output.stage3.size() > static_cast<size_t>(std::numeric_limits<Stage2ElementType>::max()))
+            throw std::length_error("multistage table: too many different values for the element type of stage 2");
+
         auto const stage3Index = static_cast<Stage2ElementType>(_output.stage3.size());
         _output.stage3.emplace_back(value);
-        assert(stage3Index < std::numeric_limits<Stage2ElementType>::max());
         _stage3Map[value] = stage3Index;
         return stage3Index;
     }
-- 
2.43.0


From 5d7e84b8cc017288755d4f0a46a912ca2204e5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:24 +0000
Subject: [PATCH 31/41] fix: multistage_table_generator::verify() did not
 compile

---
 src/libunicode/multistage_table_generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libunicode/multistage_table_generator.h b/src/libunicode/multistage_table_generator.h
index 8886569..2081cc2 100644
--- a/src/libunicode/multistage_table_generator.h
+++ b/src/libunicode/multistage_table_generator.h
@@ -97,7 +97,7 @@ class multistage_table_generator
             auto const& b = _output.get(codepoint);
             if (a != b)
             {
-                throw runtime_error((std::ostringstream()
+                throw std::runtime_error((std::ostringstream()
                                      << "U+" << std::hex << unsigned(codepoint) << " mismatch in properties.\n"
                                      << "Expected : " << a << "\nActual   : " << b)
                                         .str());
-- 
2.43.0


From 78d6d4c3ba1234304f26729cf55e55773ed52fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:30 +0000
Subject: [PATCH 32/41] fix: multistage table generator never ended on tables
 that span the whole source type, nor on empty ones

---
 src/libunicode/multistage_table_generator.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/libunicode/multistage_table_generator.h b/src/libunicode/multistage_table_generator.h
index 2081cc2..b6acf28 100644
--- a/src/libunicode/multistage_table_generator.h
+++ b/src/libunicode/multistage_table_generator.h
@@ -78,23 +78,23 @@ class multistage_table_generator
     {
         assert(_inputSize % BlockSize == 0);
         _output.stage1.resize(_inputSize / BlockSize);
-        for (SourceType blockStart = 0; blockStart <= _inputSize - BlockSize; blockStart += BlockSize)
+        for (size_t blockStart = 0; blockStart + BlockSize <= _inputSize; blockStart += BlockSize)
             _output.stage1[blockStart / BlockSize] = get_or_create_index_to_stage2_block(blockStart);
     }
 
     void verify() const
     {
-        for (SourceType blockStart = 0; blockStart <= _inputSize - BlockSize; ++blockStart)
+        for (size_t blockStart = 0; blockStart + BlockSize <= _inputSize; ++blockStart)
             verify_block(blockStart / BlockSize);
     }
 
   private:
-    void verify_block(SourceType blockNumber) const
+    void verify_block(size_t blockNumber) const
     {
-        for (SourceType codepoint = blockNumber * BlockSize; codepoint < (blockNumber + 1) * BlockSize; ++codepoint)
+        for (size_t codepoint = blockNumber * BlockSize; codepoint < (blockNumber + 1) * BlockSize; ++codepoint)
         {
             auto const& a = _input[codepoint];
-            auto const& b = _output.get(codepoint);
+            auto const& b = _output.get(static_cast<SourceType>(codepoint));
             if (a != b)
             {
                 throw std::runtime_error((std::ostringstream()
@@ -105,9 +105,9 @@ class multistage_table_generator
         }
     }
 
-    Stage1ElementType get_or_create_index_to_stage2_block(SourceType blockStart)
+    Stage1ElementType get_or_create_index_to_stage2_block(size_t blockStart)
     {
-        if (auto other_block = find_same_block(static_cast<size_t>(blockStart)))
+        if (auto other_block = find_same_block(blockStart))
             return _output.stage1[other_block.value()];
 
         // Block has not been seen yet. Create a new block.
@@ -115,7 +115,7 @@ class multistage_table_generator
         if (stage2Index > static_cast<size_t>(std::numeric_limits<Stage1ElementType>::max()))
             throw std::length_error("multistage table: too many different blocks for the element type of stage 1");
 
-        for (SourceType index = blockStart; index < blockStart + BlockSize; ++index)
+        for (size_t index = blockStart; index < blockStart + BlockSize; ++index)
             _output.stage2.emplace_back(get_or_create_stage3_index(index));
 
         assert(_output.stage2.size() % BlockSize == 0);
@@ -158,7 +158,7 @@ class multistage_table_generator
         return std::equal(_input + a, _input + a + BlockSize, _input + b);
     }
 
-    Stage2ElementType get_or_create_stage3_index(SourceType stage1Index)
+    Stage2ElementType get_or_create_stage3_index(size_t stage1Index)
     {
         auto const& value = _input[stage1Index];
         if (auto it = _stage3Map.find(value); it != _stage3Map.end())
-- 
2.43.0


From fd4ca5073daf3164fdfe8be92fdabc194bf7375b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:56 +0000
Subject: [PATCH 33/41] fix: multistage table generator looked up values with a
 default-constructed hasher

---
 src/libunicode/multistage_table_generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libunicode/multistage_table_generator.h b/src/libunicode/multistage_table_generator.h
index b6acf28..6b7e368 100644
--- a/src/libunicode/multistage_table_generator.h
+++ b/src/libunicode/multistage_table_generator.h
@@ -174,7 +174,7 @@ class multistage_table_generator
     }
 
     std::unordered_map<size_t, std::vector<size_t>> _blockHashMap;
-    std::unordered_map<T, Stage2ElementType, ValueHasher> _stage3Map;
+    std::unordered_map<T, Stage2ElementType, ValueHasher> _stage3Map { 0, _valueHasher };
 };
 
 template <typename T,
-- 
2.43.0


From 4b53a40a266632627cba96f8cc75543c729b8a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:22 +0000
Subject: [PATCH 34/41] fix: uc-inspect exited with success, showing nothing,
 for a file that cannot be opened

---
 src/tools/uc-inspect.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tools/uc-inspect.cpp b/src/tools/uc-inspect.cpp
index 430b57f..1b9912e 100644
--- a/src/tools/uc-inspect.cpp
+++ b/src/tools/uc-inspect.cpp
@@ -309,6 +309,12 @@ int run(int argc, char const* argv[])
     istream& in =
         holds_alternative<istream*>(inputStreamVar) ? *get<istream*>(inputStreamVar) : *get<unique_ptr<istream>>(inputStreamVar);
 
+    if (!in)
+    {
+        cerr << "Failed to open the input file.\n";
+        return EXIT_FAILURE;
+    }
+
     switch (cmd)
     {
         case Cmd::Codepoints: codepoints(in); break;
-- 
2.43.0


From bb759afdc1bfb03479f9ae2c10183780e077abab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:22 +0000
Subject: [PATCH 35/41] fix: unicode-query exited with success for arguments
 that are no code points

---
 src/tools/unicode-query.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tools/unicode-query.cpp b/src/tools/unicode-query.cpp
index d2da2c0..a15eb0c 100644
--- a/src/tools/unicode-query.cpp
+++ b/src/tools/unicode-query.cpp
@@ -166,17 +166,21 @@ void showCodepointProperties(char32_t codepoint)
 int showCodepointProperties(int argc, char const* argv[])
 {
     int arg = 0;
+    int exitCode = EXIT_SUCCESS;
     while (arg < argc)
     {
         auto const codepoints = parseChars(argv[arg]);
         if (codepoints.empty())
+        {
             cerr << "Failed to parse codepoint " << argv[arg] << "\n";
+            exitCode = EXIT_FAILURE;
+        }
         else
             for (auto const codepoint: codepoints)
                 showCodepointProperties(codepoint);
         ++arg;
     }
-    return EXIT_SUCCESS;
+    return exitCode;
 }
 // }}}
 
-- 
2.43.0


From 7bf3bf111a4cb9fc3f1b7ed1c96ed1d8c2dfb97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:39 +0000
Subject: [PATCH 36/41] fix: the command line tools exited with success when
 their output could not be written

---
 src/tools/uc-inspect.cpp    |  8 +++++++-
 src/tools/unicode-query.cpp | 31 +++++++++++++++++++++----------
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/tools/uc-inspect.cpp b/src/tools/uc-inspect.cpp
index 1b9912e..1162fbf 100644
--- a/src/tools/uc-inspect.cpp
+++ b/src/tools/uc-inspect.cpp
@@ -329,7 +329,13 @@ int main(int argc, char const* argv[])
 {
     try
     {
-        return run(argc, argv);
+        int const exitCode = run(argc, argv);
+        if (!cout.flush())
+        {
+            cerr << "Failed to write the output.\n";
+            return EXIT_FAILURE;
+        }
+        return exitCode;
     }
     catch (std::exception const& e)
     {
diff --git a/src/tools/unicode-query.cpp b/src/tools/unicode-query.cpp
index a15eb0c..a8238c5 100644
--- a/src/tools/unicode-query.cpp
+++ b/src/tools/unicode-query.cpp
@@ -275,17 +275,8 @@ int showRuns(int argc, char const* argv[])
     return EXIT_SUCCESS;
 }
 // }}}
-} // namespace
 
-// Example usage:
-//
-// unicode-query [properties] U+1234 [U+5678 ...]
-//
-// unicode-query analyze "Text string"
-//
-//     Analyzes the given input string for common Unicode properties
-//     and prints out each segments with the gathered information.
-int main(int argc, char const* argv[])
+int run(int argc, char const* argv[])
 {
     if (argc == 1)
         return printUsage(EXIT_FAILURE);
@@ -311,3 +302,23 @@ int main(int argc, char const* argv[])
 
     return showCodepointProperties(argc - argIndex, argv + argIndex);
 }
+} // namespace
+
+// Example usage:
+//
+// unicode-query [properties] U+1234 [U+5678 ...]
+//
+// unicode-query analyze "Text string"
+//
+//     Analyzes the given input string for common Unicode properties
+//     and prints out each segments with the gathered information.
+int main(int argc, char const* argv[])
+{
+    int const exitCode = run(argc, argv);
+    if (!cout.flush())
+    {
+        cerr << "Failed to write the output.\n";
+        return EXIT_FAILURE;
+    }
+    return exitCode;
+}
-- 
2.43.0


From 73fbe42e9b3b9a7c65e1709465c3bab3d2303461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:11 +0000
Subject: [PATCH 37/41] fix: uc-inspect codepoints exited with success for
 input that cannot be read

---
 src/tools/uc-inspect.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tools/uc-inspect.cpp b/src/tools/uc-inspect.cpp
index 1162fbf..2156eae 100644
--- a/src/tools/uc-inspect.cpp
+++ b/src/tools/uc-inspect.cpp
@@ -322,6 +322,12 @@ int run(int argc, char const* argv[])
         case Cmd::Scripts: scripts(in); break;
     }
 
+    if (in.bad())
+    {
+        cerr << "Failed to read the input.\n";
+        return EXIT_FAILURE;
+    }
+
     return EXIT_SUCCESS;
 }
 
-- 
2.43.0


From 7e428724d2230d7615dbd921864f0041db9359e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:46 +0000
Subject: [PATCH 38/41] fix: unicode-query showed DEL and C1 control codes as
 they are

---
 src/tools/unicode-query.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tools/unicode-query.cpp b/src/tools/unicode-query.cpp
index a8238c5..9874bb9 100644
--- a/src/tools/unicode-query.cpp
+++ b/src/tools/unicode-query.cpp
@@ -41,10 +41,14 @@ namespace
 
 std::string escapeControlCodes(std::string const& text)
 {
+    auto const at = [&](size_t i) { return i < text.size() ? static_cast<unsigned char>(text[i]) : 0u; };
     auto result = stringstream {};
-    for (char const ch: text)
+    for (size_t i = 0; i < text.size(); ++i)
     {
-        if (static_cast<unsigned char>(ch) < 0x20)
+        char const ch = text[i];
+        auto const isC0 = at(i) < 0x20 || at(i) == 0x7F;
+        auto const isC1 = (at(i) == 0xC2 && at(i + 1) >= 0x80 && at(i + 1) < 0xA0) || (i && at(i - 1) == 0xC2 && at(i) < 0xA0);
+        if (isC0 || isC1)
             result << "\\x" << setw(2) << setfill('0') << std::hex << (unsigned(ch) & 0xFF);
         else
             result << ch;
-- 
2.43.0


From e66a567af41546401dfc16992e72e970c3795382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:25 +0000
Subject: [PATCH 39/41] fix: decoder<char> turned 5 and 6 byte forms, which are
 not UTF-8, into code points

---
 src/libunicode/convert.h | 38 +-------------------------------------
 1 file changed, 1 insertion(+), 37 deletions(-)

diff --git a/src/libunicode/convert.h b/src/libunicode/convert.h
index a6b7c49..f7e861e 100644
--- a/src/libunicode/convert.h
+++ b/src/libunicode/convert.h
@@ -159,43 +159,7 @@ struct decoder<char> // {{{
                 return nullopt;
             return static_cast<char32_t>((ch0 << 18) + (ch1 << 12) + (ch2 << 6) + ch3 - 0x3C82080);
         }
-        if (ch0 < 0xFC) // 1111_10xx 10xx_xxxx 10xx_xxxx 10xx_xxxx 10xx_xxxx
-        {
-            auto const ch1 = uint8_t(*input++);
-            if (ch1 >> 6 != 2)
-                return nullopt;
-            auto const ch2 = uint8_t(*input++);
-            if (ch2 >> 6 != 2)
-                return nullopt;
-            auto const ch3 = uint8_t(*input++);
-            if (ch3 >> 6 != 2)
-                return nullopt;
-            auto const ch4 = uint8_t(*input++);
-            if (ch4 >> 6 != 2)
-                return nullopt;
-            auto const a = static_cast<uint32_t>((ch0 << 24u) + (ch1 << 18u) + (ch2 << 12u) + (ch3 << 6u) + ch4);
-            return static_cast<char32_t>(a - 0xFA082080lu);
-        }
-        if (ch0 < 0xFE) // 1111_110x 10xx_xxxx 10xx_xxxx 10xx_xxxx 10xx_xxxx 10xx_xxxx
-        {
-            auto const ch1 = uint8_t(*input++);
-            if (ch1 >> 6 != 2)
-                return nullopt;
-            auto const ch2 = uint8_t(*input++);
-            if (ch2 >> 6 != 2)
-                return nullopt;
-            auto const ch3 = uint8_t(*input++);
-            if (ch3 >> 6 != 2)
-                return nullopt;
-            auto const ch4 = uint8_t(*input++);
-            if (ch4 >> 6 != 2)
-                return nullopt;
-            auto const ch5 = uint8_t(*input++);
-            if (ch5 >> 6 != 2)
-                return nullopt;
-            auto const a = static_cast<uint32_t>((ch0 << 30) + (ch1 << 24) + (ch2 << 18) + (ch3 << 12) + (ch4 << 6) + ch5);
-            return static_cast<char32_t>(a - 0x82082080);
-        }
+        // 5 and 6 byte forms are not UTF-8
         return nullopt;
     }
 }; // }}}
-- 
2.43.0


From df0b266d7a50a8a968b27f78dbbb087e66e80642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:25 +0000
Subject: [PATCH 40/41] fix: decoder<char> lost the character that interrupts a
 sequence when reading from an iterator

---
 src/libunicode/convert.h | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/libunicode/convert.h b/src/libunicode/convert.h
index f7e861e..d119231 100644
--- a/src/libunicode/convert.h
+++ b/src/libunicode/convert.h
@@ -130,33 +130,39 @@ struct decoder<char> // {{{
 
         if (ch0 < 0xE0) // 110x_xxxx 10xx_xxxx
         {
-            auto const ch1 = uint8_t(*input++);
-            if ((ch1 >> 6) != 2)
+            auto const ch1 = uint8_t(*input);
+            if (ch1 >> 6 != 2) // not part of the sequence: left to be decoded next
                 return nullopt;
+            ++input;
             return static_cast<char32_t>((ch0 << 6) + ch1 - 0x3080);
         }
 
         if (ch0 < 0xF0) // 1110_xxxx 10xx_xxxx 10xx_xxxx
         {
-            auto const ch1 = uint8_t(*input++);
-            if (ch1 >> 6 != 2)
+            auto const ch1 = uint8_t(*input);
+            if (ch1 >> 6 != 2) // not part of the sequence: left to be decoded next
                 return nullopt;
-            auto const ch2 = uint8_t(*input++);
-            if (ch2 >> 6 != 2)
+            ++input;
+            auto const ch2 = uint8_t(*input);
+            if (ch2 >> 6 != 2) // not part of the sequence: left to be decoded next
                 return nullopt;
+            ++input;
             return static_cast<char32_t>((ch0 << 12) + (ch1 << 6) + ch2 - 0xE2080);
         }
         if (ch0 < 0xF8) // 1111_0xxx 10xx_xxxx 10xx_xxxx 10xx_xxxx
         {
-            auto const ch1 = uint8_t(*input++);
-            if (ch1 >> 6 != 2)
+            auto const ch1 = uint8_t(*input);
+            if (ch1 >> 6 != 2) // not part of the sequence: left to be decoded next
                 return nullopt;
-            auto const ch2 = uint8_t(*input++);
-            if (ch2 >> 6 != 2)
+            ++input;
+            auto const ch2 = uint8_t(*input);
+            if (ch2 >> 6 != 2) // not part of the sequence: left to be decoded next
                 return nullopt;
-            auto const ch3 = uint8_t(*input++);
-            if (ch3 >> 6 != 2)
+            ++input;
+            auto const ch3 = uint8_t(*input);
+            if (ch3 >> 6 != 2) // not part of the sequence: left to be decoded next
                 return nullopt;
+            ++input;
             return static_cast<char32_t>((ch0 << 18) + (ch1 << 12) + (ch2 << 6) + ch3 - 0x3C82080);
         }
         // 5 and 6 byte forms are not UTF-8
-- 
2.43.0


From 49e0465648c48267dbbd61d93929c86a5dd8ab75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:13 +0000
Subject: [PATCH 41/41] fix: the table generator took a file it could not read
 to the end for one that ends there

---
 src/libunicode/tablegen/ucd_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libunicode/tablegen/ucd_parser.cpp b/src/libunicode/tablegen/ucd_parser.cpp
index f2d46f7..d811918 100644
--- a/src/libunicode/tablegen/ucd_parser.cpp
+++ b/src/libunicode/tablegen/ucd_parser.cpp
@@ -69,6 +69,7 @@ namespace
         auto f = std::ifstream(path);
         if (!f.is_open())
             throw std::runtime_error("Failed to open file: " + path);
+        f.exceptions(std::ios::badbit); // A file that cannot be read to its end must not pass for one that ends there.
         return f;
     }
     /// Parsed result from a standard UCD data line.
-- 
2.43.0

