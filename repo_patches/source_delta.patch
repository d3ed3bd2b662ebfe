From c91189693c4f6ea6461d3e9c51f88ae422ef66d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 01/12] fix: accept registered names that begin with an IPv4
 address

The host rule is an ordered choice which committed to IPv4address as soon as
that alternative matched a prefix of the host, so valid URIs such as
http://1.2.3.4.example/ and http://1.2.3.456/ were refused.
---
 lib/uri/uri.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index b64783b..36b47be 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -392,8 +392,12 @@ auto ip_literal (rule const& r) {
 }
 
 // host = IP-literal / IPv4address / reg-name
+//
+// Every IPv4address is also a reg-name. An ordered choice must not commit to
+// IPv4address when it matches only the start of a longer registered name (such
+// as "1.2.3.4.example" or "1.2.3.456"), so that alternative is left to reg-name.
 auto host (rule const& r) {
-  return r.alternative (ip_literal, ipv4address, reg_name)
+  return r.alternative (ip_literal, reg_name)
     .matched ("IP-literal / IPv4address / reg-name", r);
 }
 constexpr auto hostfn = host;
-- 
2.43.0


From 5b8cda5718801c9aef809cf2a1104b8d6df50438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 02/12] fix: keep an empty segment that precedes a trailing dot
 segment

remove_dot_segments turned '/a//.' into '/a/' because it took an empty
last segment for the one it was about to add.
---
 lib/uri/uri.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index 36b47be..dc7e728 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -787,7 +787,7 @@ void parts::path::remove_dot_segments () {
         --outit;
       }
     } else {
-      last_dir = it->empty ();
+      last_dir = false;
       if (outit != it) {
         *outit = *it;
       }
@@ -797,13 +797,9 @@ void parts::path::remove_dot_segments () {
   this->segments.erase (outit, end);
 
   if (last_dir) {
-    if (segments.empty ()) {
-      this->segments.emplace_back ();
-    } else {
-      if (!this->segments.back ().empty ()) {
-        this->segments.emplace_back ();
-      }
-    }
+    // A path which ended with "." or ".." names a directory: keep the trailing
+    // slash.
+    this->segments.emplace_back ();
   }
 }
 
-- 
2.43.0


From fed1aedb47007d60e0b4594654e4c7c8ca26256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 03/12] fix: merge drops the base path's only segment

RFC 3986 section 5.2.3 removes all of the last segment, also when it is
the only one: joining 'a' to 's://h/aaa' is 's://h/a'.
---
 lib/uri/uri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index dc7e728..ebf2cb5 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -747,7 +747,7 @@ struct uri::parts::path merge (uri::parts const& base, uri::parts const& ref) {
   r2.absolute = base.path.absolute;
 
   auto last = std::end (base.path.segments);
-  if (base.path.segments.size () > 1) {
+  if (!base.path.segments.empty ()) {
     std::advance (last, -1);
   }
   auto out = std::back_inserter (r2.segments);
-- 
2.43.0


From 26fa384faa885a3b88c44d81e540e52adba1984a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:00 +0000
Subject: [PATCH 04/12] fix: iter_move of pctdecode_view's iterator yields the
 decoded byte

---
 include/uri/pctdecode.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/uri/pctdecode.hpp b/include/uri/pctdecode.hpp
index 7df41f5..6dd38e2 100644
--- a/include/uri/pctdecode.hpp
+++ b/include/uri/pctdecode.hpp
@@ -185,8 +185,8 @@ public:
   }
 
   friend constexpr std::ranges::range_rvalue_reference_t<View> iter_move (
-    iterator const& it) noexcept (noexcept (std::ranges::iter_move (it.pos_))) {
-    return std::ranges::iter_move (it.pos_);
+    iterator const& it) noexcept (noexcept (*it)) {
+    return static_cast<std::ranges::range_rvalue_reference_t<View>> (*it);
   }
 
   friend constexpr void iter_swap (
-- 
2.43.0


From f195e23871d7321279a36d4f904681a801fbeff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 05/12] fix: keep the top byte of little-endian UTF-32 code
 units

---
 include/uri/icubaby.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index adc0bf2..5247429 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -1723,7 +1723,7 @@ private:
   /// \returns A native-endian 32 bit value.
   [[nodiscard]] constexpr char32_t char32_from_little_endian_buffer (input_type const value) const noexcept {
     return static_cast<char32_t> (
-        (static_cast<std::uint_least32_t> (value << 24U)) | (static_cast<std::uint_least32_t> (buffer_[2]) << 16U) |
+        (static_cast<std::uint_least32_t> (value) << 24U) | (static_cast<std::uint_least32_t> (buffer_[2]) << 16U) |
         (static_cast<std::uint_least32_t> (buffer_[1]) << 8U) | (static_cast<std::uint_least32_t> (buffer_[0])));
   }
 };
-- 
2.43.0


From b71f3ef2aa8d449e8cdd7796277856f1d659adf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 06/12] fix: byte stream that ends within a byte order mark

---
 include/uri/icubaby.hpp | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index 5247429..94b7bab 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -1219,7 +1219,8 @@ public:
     case states::utf8_bom_byte2:
       buffer_[byte_no (state_)] = value;
       // Start decoding as UTF-8. If we have a complete UTF-8 BOM drop it, otherwise copy the buffer to output.
-      dest = this->run8_start (value != details::boms[boms_index_from_state (state_)][byte_no (state_)], dest);
+      dest = this->run8_start (
+          value == details::boms[boms_index_from_state (state_)][byte_no (state_)] ? 0U : byte_no (state_) + 1U, dest);
       break;
 
     case states::utf16_be_bom_byte1:
@@ -1227,7 +1228,7 @@ public:
       // We either have a complete UTF-16 BE BOM in which case we start transcoding or we default to UTF-8 emitting the
       // bytes consumed so far.
       dest = (value == details::boms[boms_index_from_state (state_)][byte_no (state_)]) ? this->run16_start (dest)
-                                                                                        : this->run8_start (true, dest);
+                                                                                        : this->run8_start (2U, dest);
       break;
 
     case states::utf32_or_16_le_bom_byte2:
@@ -1249,7 +1250,7 @@ public:
         state_ = next_byte (state_);
       } else {
         // Default input encoding. Emit buffer.
-        dest = this->run8_start (true, dest);
+        dest = this->run8_start (byte_no (state_) + 1U, dest);
       }
       break;
 
@@ -1262,7 +1263,7 @@ public:
         state_ = set_run_mode (set_byte (state_, 0));
       } else {
         // Default input encoding. Emit buffer.
-        dest = this->run8_start (true, dest);
+        dest = this->run8_start (byte_no (state_) + 1U, dest);
       }
       break;
 
@@ -1306,10 +1307,15 @@ public:
     if (transcoder_variant_.valueless_by_exception ()) {
       return dest;
     }
+    if (std::holds_alternative<std::monostate> (transcoder_variant_)) {
+      // The input ended before its encoding was known: it is either just a UTF-16 LE BOM or, by default, UTF-8.
+      dest = (state_ == states::utf32_or_16_le_bom_byte2) ? this->run16_start (dest)
+                                                          : this->run8_start (byte_no (state_), dest);
+    }
     return std::visit (
-        [this, &dest] (auto& arg) {
+        [&dest] (auto& arg) {
           if constexpr (std::is_same_v<std::decay_t<decltype (arg)>, std::monostate>) {
-            return this->run8_start (state_ != states::start, dest);
+            return dest;
           } else {
             return arg.end_cp (dest);
           }
@@ -1597,7 +1603,7 @@ private:
     } else if (value == std::byte{0x00}) {
       state_ = states::utf32_or_16_be_bom_byte1;
     } else {
-      dest = this->run8_start (true, dest);
+      dest = this->run8_start (1U, dest);
     }
     return dest;
   }
@@ -1605,21 +1611,20 @@ private:
   /// Switches to the run state in which the input has been determined to be UTF-8 encoded.
   ///
   /// \tparam OutputIterator  An output iterator type to which values of type output_type can be written.
-  /// \param copy_buffer  True if the contents of buffer_ should be copied immediately to the output.
+  /// \param num_bytes  The number of bytes held by buffer_ that should be passed immediately to the UTF-8 transcoder.
   /// \param dest  An output iterator to which the output sequence is written.
   /// \returns  Iterator one past the last element assigned.
   template <ICUBABY_CONCEPT_OUTPUT_ITERATOR (ToEncoding) OutputIterator>
-  [[nodiscard]] OutputIterator run8_start (bool const copy_buffer, OutputIterator dest) noexcept {
+  [[nodiscard]] OutputIterator run8_start (std::size_t const num_bytes, OutputIterator dest) noexcept {
     assert (!is_run_mode (state_) && "The FSM should not be in run mode when run8_start is called");
     assert (std::holds_alternative<std::monostate> (transcoder_variant_) &&
             "The variant should hold monostate until the FSM is in run mode");
     auto& trans = transcoder_variant_.template emplace<t8_type> ();
-    if (copy_buffer) {
-      // NOLINTNEXTLINE(llvm-qualified-auto,readability-qualified-auto)
-      auto const first = std::begin (buffer_);
-      (void)std::for_each (first, first + byte_no (state_) + 1,
-                           [&trans, &dest] (std::byte value) { dest = trans (static_cast<char8> (value), dest); });
-    }
+    assert (num_bytes <= buffer_.size ());
+    // NOLINTNEXTLINE(llvm-qualified-auto,readability-qualified-auto)
+    auto const first = std::begin (buffer_);
+    (void)std::for_each (first, first + num_bytes,
+                         [&trans, &dest] (std::byte value) { dest = trans (static_cast<char8> (value), dest); });
     state_ = states::run_8;
     return dest;
   }
-- 
2.43.0


From 3386e80c1122ab2761d767792396f7bada08ef18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 07/12] fix: UTF-16 LE byte streams whose first code unit has a
 zero low byte

---
 include/uri/icubaby.hpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index 94b7bab..533c66d 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -1255,6 +1255,16 @@ public:
       break;
 
     case states::utf32_le_bom_byte3:
+      if (value != std::byte{0x00}) {
+        // This isn't a UTF-32 LE BOM but a UTF-16 LE BOM followed by a code-unit whose low byte is 0.
+        dest = this->run16_start (dest);
+        buffer_[0] = std::byte{0x00};
+        state_ = states::run_16le_byte1;
+        dest = this->run16 (value, dest);
+        break;
+      }
+      [[fallthrough]];
+
     case states::utf32_be_bom_byte3:
       assert (byte_no (state_) == 3);
       buffer_[3] = value;
@@ -1308,9 +1318,16 @@ public:
       return dest;
     }
     if (std::holds_alternative<std::monostate> (transcoder_variant_)) {
-      // The input ended before its encoding was known: it is either just a UTF-16 LE BOM or, by default, UTF-8.
-      dest = (state_ == states::utf32_or_16_le_bom_byte2) ? this->run16_start (dest)
-                                                          : this->run8_start (byte_no (state_), dest);
+      // The input ended before its encoding was known: it either started with a UTF-16 LE BOM or, by default, is UTF-8.
+      if (state_ == states::utf32_or_16_le_bom_byte2) {
+        dest = this->run16_start (dest);
+      } else if (state_ == states::utf32_le_bom_byte3) {
+        dest = this->run16_start (dest);
+        buffer_[0] = std::byte{0x00};
+        state_ = states::run_16le_byte1;
+      } else {
+        dest = this->run8_start (byte_no (state_), dest);
+      }
     }
     return std::visit (
         [&dest] (auto& arg) {
-- 
2.43.0


From 3312e623c6c1b7430ac2c383699d9118ca433e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 08/12] fix: report byte streams that end part way through a
 code unit

---
 include/uri/icubaby.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index 533c66d..e7d4d56 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -1329,7 +1329,7 @@ public:
         dest = this->run8_start (byte_no (state_), dest);
       }
     }
-    return std::visit (
+    dest = std::visit (
         [&dest] (auto& arg) {
           if constexpr (std::is_same_v<std::decay_t<decltype (arg)>, std::monostate>) {
             return dest;
@@ -1338,6 +1338,13 @@ public:
           }
         },
         transcoder_variant_);
+    if (this->partial_code_unit ()) {
+      // The input ended part way through a code-unit.
+      truncated_ = true;
+      state_ = set_byte (state_, 0);
+      dest = transcoder<char32_t, ToEncoding>{}(replacement_char, dest);
+    }
+    return dest;
   }
 
   /// \brief Call once the entire input sequence has been fed to operator().
@@ -1513,6 +1520,10 @@ private:
   static constexpr bool is_run_mode (states const state) noexcept {
     return (static_cast<std::byte> (state) & run_mask) == run_mode;
   }
+  /// \brief Returns true if some, but not all, of the bytes of a UTF-16 or UTF-32 code-unit have been received.
+  ///
+  /// \returns True if the FSM is part way through a code-unit.
+  constexpr bool partial_code_unit () const noexcept { return is_run_mode (state_) && byte_no (state_) != 0; }
   /// \brief Returns true if the argument represents a state in which the FSM is consuming little endian code units.
   ///
   /// \param state  A valid state machine state.
@@ -1581,6 +1592,8 @@ private:
 
   /// The current state of the FSM.
   states state_ = states::start;
+  /// True if the input ended part way through a UTF-16 or UTF-32 code-unit.
+  bool truncated_ = false;
   /// A buffer into which input bytes are gathered as a complete code unit is being assembled by the state machine.
   std::array<std::byte, 4> buffer_{};
   /// Holds the transcoder used to convert input code units. Holds monostate until the input encoding has been selected.
@@ -1764,7 +1777,7 @@ constexpr bool transcoder<std::byte, ToEncoding>::partial () const noexcept {
         if constexpr (std::is_same_v<std::decay_t<decltype (arg)>, std::monostate>) {
           return this->state_ != states::start;
         } else {
-          return arg.partial ();
+          return this->partial_code_unit () || arg.partial ();
         }
       },
       transcoder_variant_);
@@ -1778,11 +1791,11 @@ constexpr bool transcoder<std::byte, ToEncoding>::well_formed () const noexcept
     return true;
   }
   return std::visit (
-      [] (auto const& arg) {
+      [this] (auto const& arg) {
         if constexpr (std::is_same_v<std::decay_t<decltype (arg)>, std::monostate>) {
           return true;
         } else {
-          return arg.well_formed ();
+          return !this->truncated_ && arg.well_formed ();
         }
       },
       transcoder_variant_);
-- 
2.43.0


From 44e076e7295c8e4d6423a6326d7e62a169a85836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 09/12] fix: transcode_view's output buffer was too small for
 byte sources

---
 include/uri/icubaby.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index e7d4d56..caf49fb 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -2103,6 +2103,14 @@ template <> inline constexpr auto max_output_bytes<char16_t, icubaby::char8> = s
 /// \brief The maximum number of bytes produced by a single code-unit being passed to a transcoder consuming UTF-32.
 template <> inline constexpr auto max_output_bytes<char16_t, char32_t> = std::size_t{2};
 
+/// \brief The maximum number of code units produced by a single byte being passed to a transcoder consuming bytes.
+///
+/// The worst case comes when the input does not start with a byte order mark: as many as four bytes may have been held
+/// back at that point, each of which can yield a REPLACEMENT CHARACTER.
+template <typename ToEncoding>
+inline constexpr auto max_output_bytes<std::byte, ToEncoding> =
+    std::size_t{4} * (std::is_same_v<ToEncoding, icubaby::char8> ? std::size_t{3} : std::size_t{1});
+
 /// \brief The iterator type of transcode_view.
 template <unicode_input FromEncoding, unicode_char_type ToEncoding, std::ranges::input_range View>
   requires std::ranges::view<View>
-- 
2.43.0


From 6a9143ff9df1f02554dc2a826d883e5de60b4865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 10/12] fix: transcode_view over input that yields no output is
 empty

---
 include/uri/icubaby.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index caf49fb..b16ee60 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -2267,6 +2267,10 @@ constexpr std::ranges::iterator_t<View const> transcode_view<FromEncoding, ToEnc
   if (!transcoder_.well_formed ()) {
     parent->well_formed_ = false;
   }
+  if (out_it == out_begin) {
+    // The remaining input (for example, a lone byte order mark) produced no output: there is nothing to dereference.
+    result = next_;
+  }
   first_ = std::uint_least8_t{0};
   last_ = static_cast<std::uint_least8_t> (out_it - out_begin);
   return result;
-- 
2.43.0


From 9f528bbaafd13181c49dda0a9a5becc4de2ddaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:13 +0000
Subject: [PATCH 11/12] fix: elements of pctdecode_view must outlive its
 iterator

The iterator returned a reference to a byte kept in itself, so that front() (from
view_interface) handed out a reference into an iterator that no longer existed.
---
 include/uri/pctdecode.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/uri/pctdecode.hpp b/include/uri/pctdecode.hpp
index 6dd38e2..721e19b 100644
--- a/include/uri/pctdecode.hpp
+++ b/include/uri/pctdecode.hpp
@@ -157,14 +157,15 @@ public:
     return std::move (pos_);
   }
 
-  constexpr std::ranges::range_reference_t<View> operator* () const {
-    return details::deref<std::ranges::range_reference_t<View>> (
-      pos_, std::ranges::end (parent_->base_), &hex_);
+  /// Yields a value rather than a reference: a decoded character has no home in
+  /// the underlying view and must be able to outlive this iterator.
+  constexpr std::ranges::range_value_t<View> operator* () const {
+    return this->deref ();
   }
   constexpr std::ranges::iterator_t<View> operator->() const
     requires std::copyable<std::ranges::iterator_t<View>>
   {
-    return &(**this);
+    return &this->deref ();
   }
 
   constexpr iterator& operator++ () {
@@ -184,9 +185,9 @@ public:
     return x.pos_ == y.pos_;
   }
 
-  friend constexpr std::ranges::range_rvalue_reference_t<View> iter_move (
+  friend constexpr std::ranges::range_value_t<View> iter_move (
     iterator const& it) noexcept (noexcept (*it)) {
-    return static_cast<std::ranges::range_rvalue_reference_t<View>> (*it);
+    return *it;
   }
 
   friend constexpr void iter_swap (
@@ -199,6 +200,11 @@ public:
   }
 
 private:
+  constexpr std::ranges::range_reference_t<View> deref () const {
+    return details::deref<std::ranges::range_reference_t<View>> (
+      pos_, std::ranges::end (parent_->base_), &hex_);
+  }
+
   [[no_unique_address]] pctdecode_view const* parent_ = nullptr;
   [[no_unique_address]] std::ranges::iterator_t<View> pos_ =
     std::ranges::iterator_t<View> ();
-- 
2.43.0


From 6edf6ac64d6c93b1e908db0a811767806b01722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:13 +0000
Subject: [PATCH 12/12] fix: elements of transcode_view must outlive its
 iterator

The iterator returned a reference to a code unit kept in itself, so that front() (from
view_interface) handed out a reference into an iterator that no longer existed.
---
 include/uri/icubaby.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index b16ee60..76a058b 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -2143,7 +2143,10 @@ public:
   /// \brief Returns the underlying view
   constexpr std::ranges::iterator_t<View> base () && { return std::move (current_); }
 
-  constexpr value_type const& operator* () const { return state_.front (); }
+  /// \brief Returns the current code unit.
+  ///
+  /// Yields a value rather than a reference: the code unit is stored in the iterator and must be able to outlive it.
+  constexpr value_type operator* () const { return state_.front (); }
   constexpr std::ranges::iterator_t<View> operator->() const { return state_.front (); }
 
   constexpr iterator& operator++ () {
-- 
2.43.0

