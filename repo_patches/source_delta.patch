From 2d88f761981137ac7e96fe8df787373eab118369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:23 +0000
Subject: [PATCH 01/48] fix: base64 decoder indexes its table with the unsigned
 value of a byte

A char (or signed char) with the high bit set was converted straight to
std::size_t, which sign-extends it and reads far outside decode_table.
---
 include/fitoria/encoding/base64/decoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/encoding/base64/decoder.hpp b/include/fitoria/encoding/base64/decoder.hpp
index 3515df2..1d2c026 100644
--- a/include/fitoria/encoding/base64/decoder.hpp
+++ b/include/fitoria/encoding/base64/decoder.hpp
@@ -150,7 +150,7 @@ private:
   template <typename Byte>
   static std::size_t s(Byte byte) noexcept
   {
-    return static_cast<std::size_t>(byte);
+    return static_cast<std::size_t>(static_cast<std::uint8_t>(byte));
   }
 
   state state_ = state::s0;
-- 
2.43.0


From c7a893ff5dc906dfc636d8f58da97c42fdff664e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:28 +0000
Subject: [PATCH 02/48] fix: base64 decoder does not accept half of a
 two-character padding

After the first '=' of '==' the decoder reported is_done(), so truncated text
such as "MA=" was accepted by decode().
---
 include/fitoria/encoding/base64/decoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/encoding/base64/decoder.hpp b/include/fitoria/encoding/base64/decoder.hpp
index 1d2c026..2104a0c 100644
--- a/include/fitoria/encoding/base64/decoder.hpp
+++ b/include/fitoria/encoding/base64/decoder.hpp
@@ -40,7 +40,7 @@ public:
 
   bool is_done() const noexcept
   {
-    return !is_error() && state_ != state::s1;
+    return !is_error() && state_ != state::s1 && state_ != state::end1;
   }
 
   template <typename InputIt, typename OutputIt>
-- 
2.43.0


From df9d08df71df498cde2eb935c5b12a4854fa4269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 03/48] fix: assigning an empty optional of another reference
 type empties an optional reference

---
 include/fitoria/core/optional.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fitoria/core/optional.hpp b/include/fitoria/core/optional.hpp
index c8e9db1..cd3b97d 100644
--- a/include/fitoria/core/optional.hpp
+++ b/include/fitoria/core/optional.hpp
@@ -773,6 +773,8 @@ public:
 
     if (other) {
       this->valptr_ = std::addressof(*other);
+    } else {
+      this->valptr_ = nullptr;
     }
 
     return *this;
-- 
2.43.0


From 830097e3e5eed7213769094dc06ceadebaf53dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:14 +0000
Subject: [PATCH 04/48] fix: optional<void>::transform keeps the value its
 function returns

---
 include/fitoria/core/optional.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/core/optional.hpp b/include/fitoria/core/optional.hpp
index cd3b97d..80ac9b9 100644
--- a/include/fitoria/core/optional.hpp
+++ b/include/fitoria/core/optional.hpp
@@ -669,8 +669,12 @@ public:
   {
     using U = std::remove_cv_t<std::invoke_result_t<F>>;
     if (has_value()) {
-      std::forward<F>(f)();
-      return optional<U>(std::in_place);
+      if constexpr (std::is_void_v<U>) {
+        std::invoke(std::forward<F>(f));
+        return optional<U>(std::in_place);
+      } else {
+        return optional<U>(std::invoke(std::forward<F>(f)));
+      }
     } else {
       return optional<U>();
     }
-- 
2.43.0


From 845d25ad5e198b594dccb80e7d8e2e1d8d522999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:50 +0000
Subject: [PATCH 05/48] fix: assigning an unexpected to a bound expected
 reference constructs the error

---
 include/fitoria/core/expected.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fitoria/core/expected.hpp b/include/fitoria/core/expected.hpp
index 9ed1d42..5a987e3 100644
--- a/include/fitoria/core/expected.hpp
+++ b/include/fitoria/core/expected.hpp
@@ -1856,6 +1856,7 @@ public:
              && std::is_assignable_v<E&, const G&>)
   {
     if (has_value()) {
+      std::construct_at(std::addressof(this->err_), other.error());
       this->has_ = false;
     } else {
       this->err_ = other.error();
@@ -1869,6 +1870,7 @@ public:
     requires(std::is_constructible_v<E, G> && std::is_assignable_v<E&, G>)
   {
     if (has_value()) {
+      std::construct_at(std::addressof(this->err_), std::move(other.error()));
       this->has_ = false;
     } else {
       this->err_ = std::move(other.error());
-- 
2.43.0


From de3328400fae90447be9af11f05bf118c2f46cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:56 +0000
Subject: [PATCH 06/48] fix: expected's defaulted assignments require payloads
 that are trivially constructible and destructible too

---
 include/fitoria/core/expected.hpp | 64 +++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/include/fitoria/core/expected.hpp b/include/fitoria/core/expected.hpp
index 5a987e3..ea4f918 100644
--- a/include/fitoria/core/expected.hpp
+++ b/include/fitoria/core/expected.hpp
@@ -429,8 +429,12 @@ public:
   = default;
 
   constexpr expected& operator=(const expected& other)
-    requires(!(std::is_trivially_copy_assignable_v<T>
-               && std::is_trivially_copy_assignable_v<E>)
+    requires(!(std::is_trivially_copy_constructible_v<T>
+               && std::is_trivially_copy_assignable_v<T>
+               && std::is_trivially_destructible_v<T>
+               && std::is_trivially_copy_constructible_v<E>
+               && std::is_trivially_copy_assignable_v<E>
+               && std::is_trivially_destructible_v<E>)
              && std::is_copy_constructible_v<T> && std::is_copy_assignable_v<T>
              && std::is_copy_constructible_v<E> && std::is_copy_assignable_v<E>
              && (std::is_nothrow_move_constructible_v<T>
@@ -456,8 +460,12 @@ public:
   }
 
   constexpr expected& operator=(const expected&)
-    requires(std::is_trivially_copy_assignable_v<T>
-             && std::is_trivially_copy_assignable_v<E>)
+    requires(std::is_trivially_copy_constructible_v<T>
+             && std::is_trivially_copy_assignable_v<T>
+             && std::is_trivially_destructible_v<T>
+             && std::is_trivially_copy_constructible_v<E>
+             && std::is_trivially_copy_assignable_v<E>
+             && std::is_trivially_destructible_v<E>)
   = default;
 
   constexpr expected& operator=(expected&& other) noexcept(
@@ -465,8 +473,12 @@ public:
       && std::is_nothrow_move_assignable_v<T>
       && std::is_nothrow_move_constructible_v<E>
       && std::is_nothrow_move_assignable_v<E>)
-    requires(!(std::is_trivially_move_assignable_v<T>
-               && std::is_trivially_move_assignable_v<E>)
+    requires(!(std::is_trivially_move_constructible_v<T>
+               && std::is_trivially_move_assignable_v<T>
+               && std::is_trivially_destructible_v<T>
+               && std::is_trivially_move_constructible_v<E>
+               && std::is_trivially_move_assignable_v<E>
+               && std::is_trivially_destructible_v<E>)
              && std::is_move_constructible_v<T> && std::is_move_assignable_v<T>
              && std::is_move_constructible_v<E> && std::is_move_assignable_v<E>
              && (std::is_nothrow_move_constructible_v<T>
@@ -492,8 +504,12 @@ public:
   }
 
   constexpr expected& operator=(expected&&)
-    requires(std::is_trivially_move_assignable_v<T>
-             && std::is_trivially_move_assignable_v<E>)
+    requires(std::is_trivially_move_constructible_v<T>
+             && std::is_trivially_move_assignable_v<T>
+             && std::is_trivially_destructible_v<T>
+             && std::is_trivially_move_constructible_v<E>
+             && std::is_trivially_move_assignable_v<E>
+             && std::is_trivially_destructible_v<E>)
   = default;
 
   template <typename U = T>
@@ -1181,7 +1197,9 @@ public:
   = default;
 
   constexpr expected& operator=(const expected& other)
-    requires(!std::is_trivially_copy_assignable_v<E>
+    requires(!(std::is_trivially_copy_constructible_v<E>
+               && std::is_trivially_copy_assignable_v<E>
+               && std::is_trivially_destructible_v<E>)
              && std::is_copy_constructible_v<E> && std::is_copy_assignable_v<E>)
   {
     if (has_value()) {
@@ -1202,13 +1220,17 @@ public:
   }
 
   constexpr expected& operator=(const expected&)
-    requires(std::is_trivially_copy_assignable_v<E>)
+    requires(std::is_trivially_copy_constructible_v<E>
+             && std::is_trivially_copy_assignable_v<E>
+             && std::is_trivially_destructible_v<E>)
   = default;
 
   constexpr expected&
   operator=(expected&& other) noexcept(std::is_nothrow_move_constructible_v<E>
                                        && std::is_nothrow_move_assignable_v<E>)
-    requires(!std::is_trivially_move_assignable_v<E>
+    requires(!(std::is_trivially_move_constructible_v<E>
+               && std::is_trivially_move_assignable_v<E>
+               && std::is_trivially_destructible_v<E>)
              && std::is_move_constructible_v<E> && std::is_move_assignable_v<E>)
   {
     if (has_value()) {
@@ -1229,7 +1251,9 @@ public:
   }
 
   constexpr expected& operator=(expected&&)
-    requires(std::is_trivially_move_assignable_v<E>)
+    requires(std::is_trivially_move_constructible_v<E>
+             && std::is_trivially_move_assignable_v<E>
+             && std::is_trivially_destructible_v<E>)
   = default;
 
   template <typename G>
@@ -1776,7 +1800,9 @@ public:
   = default;
 
   constexpr expected& operator=(const expected& other)
-    requires(!std::is_trivially_copy_assignable_v<E>
+    requires(!(std::is_trivially_copy_constructible_v<E>
+               && std::is_trivially_copy_assignable_v<E>
+               && std::is_trivially_destructible_v<E>)
              && std::is_copy_constructible_v<E> && std::is_copy_assignable_v<E>)
   {
     if (has_value()) {
@@ -1800,13 +1826,17 @@ public:
   }
 
   constexpr expected& operator=(const expected&)
-    requires(std::is_trivially_copy_assignable_v<E>)
+    requires(std::is_trivially_copy_constructible_v<E>
+             && std::is_trivially_copy_assignable_v<E>
+             && std::is_trivially_destructible_v<E>)
   = default;
 
   constexpr expected&
   operator=(expected&& other) noexcept(std::is_nothrow_move_constructible_v<E>
                                        && std::is_nothrow_move_assignable_v<E>)
-    requires(!std::is_trivially_move_assignable_v<E>
+    requires(!(std::is_trivially_move_constructible_v<E>
+               && std::is_trivially_move_assignable_v<E>
+               && std::is_trivially_destructible_v<E>)
              && std::is_move_constructible_v<E> && std::is_move_assignable_v<E>)
   {
     if (has_value()) {
@@ -1830,7 +1860,9 @@ public:
   }
 
   constexpr expected& operator=(expected&&)
-    requires(std::is_trivially_move_assignable_v<E>)
+    requires(std::is_trivially_move_constructible_v<E>
+             && std::is_trivially_move_assignable_v<E>
+             && std::is_trivially_destructible_v<E>)
   = default;
 
   template <typename U = T>
-- 
2.43.0


From 277ba986e50568a37a1fcd764b889c6380ea6ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:47 +0000
Subject: [PATCH 07/48] fix: an expected reference keeps its binding when
 constructing an error throws

---
 include/fitoria/core/expected.hpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/fitoria/core/expected.hpp b/include/fitoria/core/expected.hpp
index ea4f918..11d4609 100644
--- a/include/fitoria/core/expected.hpp
+++ b/include/fitoria/core/expected.hpp
@@ -1651,6 +1651,20 @@ class expected<T&, E> {
       || std::is_constructible_v<unexpected<E>, const expected<U, G>&>
       || std::is_constructible_v<unexpected<E>, const expected<U, G>>;
 
+  // Switches from the reference to an error. The reference shares its storage
+  // with the error, so it has to be put back when constructing the error throws.
+  template <typename... Args>
+  constexpr void reinit_error(Args&&... args)
+  {
+    auto* valptr = this->valptr_;
+    try {
+      std::construct_at(std::addressof(this->err_), std::forward<Args>(args)...);
+    } catch (...) {
+      this->valptr_ = valptr;
+      throw;
+    }
+  }
+
 public:
   static_assert(!std::is_same_v<std::remove_cvref_t<T>, std::in_place_t>);
   static_assert(!std::is_same_v<std::remove_cvref_t<T>, unexpect_t>);
@@ -1809,7 +1823,7 @@ public:
       if (other) {
         this->valptr_ = other.valptr_;
       } else {
-        std::construct_at(std::addressof(this->err_), other.error());
+        reinit_error(other.error());
         this->has_ = false;
       }
     } else {
@@ -1843,7 +1857,7 @@ public:
       if (other) {
         this->valptr_ = other.valptr_;
       } else {
-        std::construct_at(std::addressof(this->err_), std::move(other.error()));
+        reinit_error(std::move(other.error()));
         this->has_ = false;
       }
     } else {
@@ -1888,7 +1902,7 @@ public:
              && std::is_assignable_v<E&, const G&>)
   {
     if (has_value()) {
-      std::construct_at(std::addressof(this->err_), other.error());
+      reinit_error(other.error());
       this->has_ = false;
     } else {
       this->err_ = other.error();
@@ -1902,7 +1916,7 @@ public:
     requires(std::is_constructible_v<E, G> && std::is_assignable_v<E&, G>)
   {
     if (has_value()) {
-      std::construct_at(std::addressof(this->err_), std::move(other.error()));
+      reinit_error(std::move(other.error()));
       this->has_ = false;
     } else {
       this->err_ = std::move(other.error());
@@ -2222,7 +2236,7 @@ public:
         swap(this->valptr_, other.valptr_);
       } else {
         auto* valptr = this->valptr_;
-        std::construct_at(std::addressof(this->err_), std::move(other.err_));
+        reinit_error(std::move(other.err_));
         std::destroy_at(std::addressof(other.err_));
         other.valptr_ = valptr;
         std::swap(this->has_, other.has_);
@@ -2230,7 +2244,7 @@ public:
     } else {
       if (other.has_value()) {
         auto* valptr = other.valptr_;
-        std::construct_at(std::addressof(other.err_), std::move(this->err_));
+        other.reinit_error(std::move(this->err_));
         std::destroy_at(std::addressof(this->err_));
         this->valptr_ = valptr;
         std::swap(this->has_, other.has_);
-- 
2.43.0


From f23b5d8cc4454efac4b1c8956b80934bbf9f326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:17 +0000
Subject: [PATCH 08/48] fix: three-way comparison of optionals handles empty
 ones

---
 include/fitoria/core/optional.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/core/optional.hpp b/include/fitoria/core/optional.hpp
index 80ac9b9..5c38143 100644
--- a/include/fitoria/core/optional.hpp
+++ b/include/fitoria/core/optional.hpp
@@ -1020,7 +1020,11 @@ template <typename T, std::three_way_comparable_with<T> U>
 constexpr std::compare_three_way_result_t<T, U>
 operator<=>(const optional<T>& lhs, const optional<U>& rhs)
 {
-  return *lhs <=> *rhs;
+  if (lhs && rhs) {
+    return *lhs <=> *rhs;
+  }
+
+  return lhs.has_value() <=> rhs.has_value();
 }
 
 template <typename T>
-- 
2.43.0


From a51184b9f9e0b34f6a9d820bbd17607586d2f4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 09/48] fix: > and >= between an optional and a value apply the
 values' own operators

---
 include/fitoria/core/optional.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fitoria/core/optional.hpp b/include/fitoria/core/optional.hpp
index 5c38143..8a5e7cf 100644
--- a/include/fitoria/core/optional.hpp
+++ b/include/fitoria/core/optional.hpp
@@ -1100,28 +1100,28 @@ template <typename T, typename U>
 constexpr bool operator>(const optional<T>& opt, const U& val)
   requires(!std::is_void_v<T> && !std::is_same_v<U, nullopt_t>)
 {
-  return !(opt <= val);
+  return opt && *opt > val;
 }
 
 template <typename T, typename U>
 constexpr bool operator>(const T& val, const optional<U>& opt)
   requires(!std::is_same_v<T, nullopt_t> && !std::is_void_v<U>)
 {
-  return !(val <= opt);
+  return !opt || val > *opt;
 }
 
 template <typename T, typename U>
 constexpr bool operator>=(const optional<T>& opt, const U& val)
   requires(!std::is_void_v<T> && !std::is_same_v<U, nullopt_t>)
 {
-  return !(opt < val);
+  return opt && *opt >= val;
 }
 
 template <typename T, typename U>
 constexpr bool operator>=(const T& val, const optional<U>& opt)
   requires(!std::is_same_v<T, nullopt_t> && !std::is_void_v<U>)
 {
-  return !(val < opt);
+  return !opt || val >= *opt;
 }
 
 template <typename T>
-- 
2.43.0


From fc0f0fbb4240e20e47eab3b5754be665796ebca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:43 +0000
Subject: [PATCH 10/48] fix: entity tags accept obs-text and refuse DEL

---
 include/fitoria/http/header/entity_tag.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/http/header/entity_tag.hpp b/include/fitoria/http/header/entity_tag.hpp
index 40a470a..1ddd6a5 100644
--- a/include/fitoria/http/header/entity_tag.hpp
+++ b/include/fitoria/http/header/entity_tag.hpp
@@ -173,7 +173,10 @@ public:
 private:
   static auto is_valid_char(char c) noexcept -> bool
   {
-    return c >= 0x21 && c != '\"';
+    // https://datatracker.ietf.org/doc/html/rfc9110#section-8.8.3
+    // etagc = %x21 / %x23-7E / obs-text
+    const auto u = static_cast<unsigned char>(c);
+    return u >= 0x21 && u != '\"' && u != 0x7f;
   }
 
   bool strong_;
-- 
2.43.0


From 08a0258c66540bd405a3768ddbbd36587c077232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:43 +0000
Subject: [PATCH 11/48] fix: If-None-Match keeps commas inside of entity tags

---
 include/fitoria/http/header/if_none_match.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/fitoria/http/header/if_none_match.hpp b/include/fitoria/http/header/if_none_match.hpp
index dc49bac..5de6afd 100644
--- a/include/fitoria/http/header/if_none_match.hpp
+++ b/include/fitoria/http/header/if_none_match.hpp
@@ -120,14 +120,24 @@ public:
     }
 
     std::vector<entity_tag> etags;
-    auto tokens = split_of(input, ",");
-    for (auto& token : tokens) {
-      auto etag = entity_tag::parse(token);
+    for (;;) {
+      // a comma between the quotes belongs to the tag
+      auto quoted = false;
+      auto pos = std::size_t(0);
+      for (; pos < input.size() && (quoted || input[pos] != ','); ++pos) {
+        quoted ^= input[pos] == '\"';
+      }
+
+      auto etag = entity_tag::parse(trim(input.substr(0, pos)));
       if (!etag) {
         return nullopt;
       }
 
       etags.push_back(std::move(*etag));
+      if (pos == input.size()) {
+        break;
+      }
+      input.remove_prefix(pos + 1);
     }
 
     return if_none_match(std::move(etags));
-- 
2.43.0


From e622124c0ea4838d68f7d3f9e3bcc8cf7c4a931c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:43 +0000
Subject: [PATCH 12/48] fix: byte ranges neither wrap around nor start beyond
 the end

---
 include/fitoria/http/header/range.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/fitoria/http/header/range.hpp b/include/fitoria/http/header/range.hpp
index a981173..4a29759 100644
--- a/include/fitoria/http/header/range.hpp
+++ b/include/fitoria/http/header/range.hpp
@@ -15,6 +15,8 @@
 #include <fitoria/core/optional.hpp>
 #include <fitoria/core/strings.hpp>
 
+#include <algorithm>
+#include <limits>
 #include <string>
 #include <string_view>
 #include <vector>
@@ -165,8 +167,9 @@ public:
 
     if (unit[1].starts_with("-")) {
       if (auto suffix = from_string<std::uint64_t>(unit[1].substr(1)); suffix) {
+        const auto length = std::min(*suffix, total_length);
         return range(std::string(unit[0]),
-                     { { total_length - *suffix, *suffix } });
+                     { { total_length - length, length } });
       }
     } else {
       if (auto subranges = parse_subranges(unit[1], total_length); subranges) {
@@ -189,12 +192,13 @@ private:
     for (auto& token : tokens) {
       if (auto subrange = split_of(token, "-"); subrange.size() == 2) {
         auto start = from_string<std::uint64_t>(subrange[0]);
-        if (subrange[1].empty() && start) {
+        if (subrange[1].empty() && start && *start < total_length) {
           subranges.push_back(subrange_t { *start, total_length - *start });
           continue;
         }
         auto end = from_string<std::uint64_t>(subrange[1]);
-        if (start && end && *start <= *end) {
+        if (start && end && *start <= *end
+            && *end < std::numeric_limits<std::uint64_t>::max()) {
           subranges.push_back(subrange_t { *start, *end - *start + 1 });
           continue;
         }
-- 
2.43.0


From ea6cc62cb78a60e4140c8d13643b176fa7bd2af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:32 +0000
Subject: [PATCH 13/48] fix: mime names accept the dot that RFC 6838 allows in
 them

---
 include/fitoria/mime/mime_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/mime/mime_view.hpp b/include/fitoria/mime/mime_view.hpp
index 40aa08a..eae57b2 100644
--- a/include/fitoria/mime/mime_view.hpp
+++ b/include/fitoria/mime/mime_view.hpp
@@ -341,7 +341,7 @@ private:
 
     return std::all_of(str.begin(), str.end(), [](char c) {
       return std::isalnum(c) || c == '!' || c == '#' || c == '$' || c == '&'
-          || c == '-' || c == '^' || c == '_';
+          || c == '-' || c == '^' || c == '_' || c == '.';
     });
   }
 
-- 
2.43.0


From e58ce3d2620108d0097a192559937255ca29f133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:54 +0000
Subject: [PATCH 14/48] fix: literal text of a route pattern does not clash
 with names

---
 include/fitoria/web/path_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/web/path_parser.hpp b/include/fitoria/web/path_parser.hpp
index 63a009c..3177f3a 100644
--- a/include/fitoria/web/path_parser.hpp
+++ b/include/fitoria/web/path_parser.hpp
@@ -138,7 +138,7 @@ private:
                                             std::string value)
   {
     for (auto& token : tokens_) {
-      if (value == token.value) {
+      if (token.kind != path_token_kind::static_ && value == token.value) {
         return false;
       }
     }
-- 
2.43.0


From b27580da0c4709fd1c0c0422a13312e482007420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:54 +0000
Subject: [PATCH 15/48] fix: inserting state into a copy does not change the
 original

---
 include/fitoria/web/state_storage.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/fitoria/web/state_storage.hpp b/include/fitoria/web/state_storage.hpp
index 56dbb80..5d50ac4 100644
--- a/include/fitoria/web/state_storage.hpp
+++ b/include/fitoria/web/state_storage.hpp
@@ -49,13 +49,11 @@ public:
   auto copy_insert_front(std::type_index ti,
                          std::any obj) const -> state_storage
   {
-    auto copy = *this;
-    if (copy.maps_.empty()) {
-      copy.maps_.push_back(std::make_shared<state_map>());
-    }
-    (*copy.maps_.front())[ti] = std::move(obj);
+    // the existing maps are shared, a new one is needed to hold the object
+    auto map = std::make_shared<state_map>();
+    (*map)[ti] = std::move(obj);
 
-    return copy;
+    return copy_prepend(std::move(map));
   }
 
   template <typename T>
-- 
2.43.0


From 039005d5e152daa27cca07a92400f413364ab821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:54 +0000
Subject: [PATCH 16/48] fix: web::error has no enumerator that converts to
 success

---
 include/fitoria/web/error.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/web/error.hpp b/include/fitoria/web/error.hpp
index e3e29b6..9879bfa 100644
--- a/include/fitoria/web/error.hpp
+++ b/include/fitoria/web/error.hpp
@@ -18,7 +18,7 @@ FITORIA_NAMESPACE_BEGIN
 namespace web {
 
 enum class error {
-  route_already_exists,
+  route_already_exists = 1,
   route_not_exists,
   unexpected_content_type,
   extractor_field_name_not_found,
-- 
2.43.0


From ddf9597536b5a7df41b3da7e4556213077222c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:12 +0000
Subject: [PATCH 17/48] fix: reverse_tuple keeps the element types of its
 argument

---
 include/fitoria/core/utility.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/core/utility.hpp b/include/fitoria/core/utility.hpp
index 4ab439e..8b6c824 100644
--- a/include/fitoria/core/utility.hpp
+++ b/include/fitoria/core/utility.hpp
@@ -27,7 +27,10 @@ auto to_underlying(E e) noexcept
 template <typename... Ts, std::size_t... Is>
 auto reverse_tuple_impl(std::tuple<Ts...> t, std::index_sequence<Is...>)
 {
-  return std::tuple { std::move(std::get<sizeof...(Ts) - Is - 1>(t))... };
+  return std::tuple<
+      std::tuple_element_t<sizeof...(Ts) - Is - 1, std::tuple<Ts...>>...> {
+    std::get<sizeof...(Ts) - Is - 1>(std::move(t))...
+  };
 }
 
 template <typename... Ts>
-- 
2.43.0


From 3a68adfaf8211b94594704d8b69d6d78e508d55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:28 +0000
Subject: [PATCH 18/48] fix: assigning a modifiable unexpected to an expected
 assigns the error

operator=(U&&) also took unexpected lvalues: for references that did not
compile, and for a value type constructible from anything the error became
the value.  The constructors exclude unexpected already.
---
 include/fitoria/core/expected.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/core/expected.hpp b/include/fitoria/core/expected.hpp
index 11d4609..b20050a 100644
--- a/include/fitoria/core/expected.hpp
+++ b/include/fitoria/core/expected.hpp
@@ -518,6 +518,7 @@ public:
         std::is_constructible_v<T, U> && std::is_assignable_v<T&, U>
         && !std::is_same_v<std::remove_cvref_t<U>, expected>
         && !is_specialization_of_v<std::remove_cvref_t<U>, fitoria::expected>
+        && !is_specialization_of_v<std::remove_cvref_t<U>, unexpected>
         && (std::is_nothrow_constructible_v<T, U>
             || std::is_nothrow_move_constructible_v<T>
             || std::is_nothrow_move_constructible_v<E>))
@@ -1883,7 +1884,8 @@ public:
   constexpr expected& operator=(U&& value)
     requires(
         !std::is_same_v<std::remove_cvref_t<U>, expected>
-        && !is_specialization_of_v<std::remove_cvref_t<U>, fitoria::expected>)
+        && !is_specialization_of_v<std::remove_cvref_t<U>, fitoria::expected>
+        && !is_specialization_of_v<std::remove_cvref_t<U>, unexpected>)
   {
     static_assert(std::is_lvalue_reference_v<U>);
 
-- 
2.43.0


From d546a9fad41c41b5eca6ddf257a598a07ce61bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 19/48] fix: characters of a route pattern's literal text and
 parameter names match only themselves

---
 include/fitoria/web/path_matcher.hpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/include/fitoria/web/path_matcher.hpp b/include/fitoria/web/path_matcher.hpp
index 72b0409..739e433 100644
--- a/include/fitoria/web/path_matcher.hpp
+++ b/include/fitoria/web/path_matcher.hpp
@@ -59,10 +59,11 @@ public:
   {
     if (boost::smatch match; boost::regex_match(input, match, regex_)) {
       std::vector<std::pair<std::string, std::string>> matches;
-      for (auto token : tokens_) {
+      for (auto& token : tokens_) {
         if (token.kind == path_token_kind::param
             || token.kind == path_token_kind::wildcard) {
-          matches.emplace_back(token.value, match[token.value].str());
+          matches.emplace_back(
+              token.value, match[static_cast<int>(matches.size() + 1)].str());
         }
       }
 
@@ -78,17 +79,19 @@ private:
     std::string regex;
     for (auto& token : tokens) {
       if (token.kind == path_token_kind::static_) {
-        regex += token.value;
+        for (auto ch : token.value) {
+          if (std::string_view(".[{}()\\*+?|^$").find(ch)
+              != std::string_view::npos) {
+            regex += '\\';
+          }
+          regex += ch;
+        }
       } else if (token.kind == path_token_kind::param) {
-        // {name} => (?<name>pattern)
-        regex += "(?<";
-        regex += token.value;
-        regex += ">[^{}/]+)";
+        // the parameter name can contain characters that are not allowed in the
+        // name of a capture, so the values are captured by position
+        regex += "([^/]+)";
       } else if (token.kind == path_token_kind::wildcard) {
-        // {name} => (?<name>pattern)
-        regex += "(?<";
-        regex += token.value;
-        regex += ">.*)";
+        regex += "(.*)";
       }
     }
 
-- 
2.43.0


From f08fddd49d562591e92252c030eeb878a2f9caaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 20/48] fix: routes whose literal text shares only a part of
 its beginning are all found

---
 include/fitoria/web/router.hpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/include/fitoria/web/router.hpp b/include/fitoria/web/router.hpp
index b4b5bb4..545249c 100644
--- a/include/fitoria/web/router.hpp
+++ b/include/fitoria/web/router.hpp
@@ -68,20 +68,24 @@ public:
         return try_insert(std::move(route), token_index + 1);
       }
 
-      for (auto& node : statics_) {
-        if (token.starts_with(node.prefix_)) {
-          return node.try_insert_static(
-              std::move(route), token.substr(node.prefix_.size()), token_index);
-        }
-      }
-
       for (std::size_t i = 0; i < statics_.size(); ++i) {
-        if (statics_[i].prefix_.starts_with(token)) {
-          auto n = node(token);
-          statics_[i].prefix_.erase(0, token.size());
-          n.statics_.push_back(std::move(statics_[i]));
-          std::swap(n, statics_[i]);
-          return statics_[i].try_insert(std::move(route), token_index + 1);
+        const auto& prefix = statics_[i].prefix_;
+        std::size_t common = 0;
+        while (common < prefix.size() && common < token.size()
+               && prefix[common] == token[common]) {
+          ++common;
+        }
+        if (common > 0) {
+          // siblings never share a first character, so a lookup has to follow
+          // at most one of them
+          if (common < prefix.size()) {
+            auto n = node(token.substr(0, common));
+            statics_[i].prefix_.erase(0, common);
+            n.statics_.push_back(std::move(statics_[i]));
+            statics_[i] = std::move(n);
+          }
+          return statics_[i].try_insert_static(
+              std::move(route), token.substr(common), token_index);
         }
       }
 
-- 
2.43.0


From e19cbe51dbdb32b8ea1fddef1199189d9cbd0ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 21/48] fix: a path parameter does not stand for an empty
 segment when routing

---
 include/fitoria/web/router.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/web/router.hpp b/include/fitoria/web/router.hpp
index 545249c..4a08310 100644
--- a/include/fitoria/web/router.hpp
+++ b/include/fitoria/web/router.hpp
@@ -19,6 +19,7 @@
 #include <fitoria/web/error.hpp>
 #include <fitoria/web/path_matcher.hpp>
 
+#include <algorithm>
 #include <map>
 #include <memory>
 #include <unordered_map>
@@ -151,10 +152,10 @@ public:
         -> expected<const route_type&, std::error_code>
     {
       if (params_) {
-        if (auto pos = path.find('/'); pos != std::string_view::npos) {
+        const auto pos = std::min(path.find('/'), path.size());
+        if (pos > 0) {
           return params_->try_find(method, path.substr(pos));
         }
-        return params_->try_find(method, std::string_view());
       }
 
       return unexpected { make_error_code(error::route_not_exists) };
-- 
2.43.0


From 1bd7216699bf23a9198eac6984d89564d9a30ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 22/48] fix: query_map::set updates the value of an existing
 name

---
 include/fitoria/web/query_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/web/query_map.hpp b/include/fitoria/web/query_map.hpp
index 0c7950f..a33c9ce 100644
--- a/include/fitoria/web/query_map.hpp
+++ b/include/fitoria/web/query_map.hpp
@@ -122,7 +122,7 @@ public:
   /// @endverbatim
   void set(std::string name, std::string value)
   {
-    map_.insert({ std::move(name), std::move(value) });
+    map_.insert_or_assign(std::move(name), std::move(value));
   }
 
   /// @verbatim embed:rst:leading-slashes
-- 
2.43.0


From 6ddc452999959305b4322fa9cec6d146c60afb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 23/48] fix: dynamic_buffer::prepare makes room for the bytes
 after moving the readable ones

---
 include/fitoria/core/dynamic_buffer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fitoria/core/dynamic_buffer.hpp b/include/fitoria/core/dynamic_buffer.hpp
index 0e98691..100a535 100644
--- a/include/fitoria/core/dynamic_buffer.hpp
+++ b/include/fitoria/core/dynamic_buffer.hpp
@@ -132,6 +132,7 @@ public:
       container_.resize(woffset_ + n);
     } else if (n <= (limit_ - size())) {
       compress();
+      container_.resize(woffset_ + n);
     } else {
       FITORIA_THROW_OR(std::length_error("dynamic_buffer too large"),
                        std::terminate());
-- 
2.43.0


From 0897199cc0c1d3d7731fd9cf14a417524df7df68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 24/48] fix: dynamic_buffer::consume of any size does not wrap
 around

---
 include/fitoria/core/dynamic_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/core/dynamic_buffer.hpp b/include/fitoria/core/dynamic_buffer.hpp
index 100a535..a20f1d2 100644
--- a/include/fitoria/core/dynamic_buffer.hpp
+++ b/include/fitoria/core/dynamic_buffer.hpp
@@ -114,7 +114,7 @@ public:
   /// @endverbatim
   void consume(std::size_t n)
   {
-    roffset_ = std::min(roffset_ + n, woffset_);
+    roffset_ += std::min(n, size());
     if (roffset_ == woffset_) {
       roffset_ = 0;
       woffset_ = 0;
-- 
2.43.0


From a732e56c6c2ac8ce16c1dba7967b231ea0567f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:07 +0000
Subject: [PATCH 25/48] fix: truncated compressed bodies and data after their
 end are errors, bodies that fill the output are not

---
 .../detail/async_brotli_inflate_stream.hpp    | 18 ++++++++++++++++
 .../detail/async_gzip_inflate_stream.hpp      | 21 +++++++++++++++++++
 .../detail/async_inflate_stream.hpp           | 21 +++++++++++++++++++
 3 files changed, 60 insertions(+)

diff --git a/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp b/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp
index db49e94..df1330a 100644
--- a/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp
@@ -106,6 +106,10 @@ public:
   {
     auto data = co_await next_.async_read_some();
     if (!data) {
+      if (started_ && !ended_) {
+        // the compressed data is truncated
+        co_return unexpected { make_error_code(brotli_error::need_more_input) };
+      }
       co_return nullopt;
     }
 
@@ -115,6 +119,10 @@ public:
     if ((*data)->empty()) {
       co_return bytes();
     }
+    if (ended_) {
+      co_return unexpected { make_error_code(brotli_error::error) };
+    }
+    started_ = true;
 
     auto readable = dynamic_buffer<bytes>(std::move(**data));
 
@@ -130,6 +138,7 @@ public:
                             writable.size());
 
       auto ec = inflater_.write(p);
+      ended_ = !ec;
       if (ec == brotli_error::need_more_input
           || ec == brotli_error::need_more_output) {
         ec = {};
@@ -141,6 +150,13 @@ public:
       readable.consume(readable.size() - p.avail_in);
       buffer.commit(writable.size() - p.avail_out);
 
+      if (ended_) {
+        if (readable.size() > 0) {
+          // there is something after the end of the compressed data
+          co_return unexpected { make_error_code(brotli_error::error) };
+        }
+        break;
+      }
       if (readable.size() == 0 && p.avail_out > 0) {
         break;
       }
@@ -152,6 +168,8 @@ public:
 private:
   NextLayer next_;
   brotli_decoder inflater_;
+  bool started_ = false;
+  bool ended_ = false;
 };
 
 template <typename NextLayer>
diff --git a/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp b/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp
index c8e5e65..3a7a8c0 100644
--- a/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp
@@ -43,6 +43,10 @@ public:
 
     auto data = co_await next_.async_read_some();
     if (!data) {
+      if (started_ && !ended_) {
+        // the compressed data is truncated
+        co_return unexpected { make_error_code(error::need_buffers) };
+      }
       co_return nullopt;
     }
 
@@ -52,6 +56,10 @@ public:
     if ((*data)->empty()) {
       co_return bytes();
     }
+    if (ended_) {
+      co_return unexpected { make_error_code(error::general) };
+    }
+    started_ = true;
 
     auto readable = dynamic_buffer<bytes>(std::move(**data));
 
@@ -71,6 +79,10 @@ public:
       inflater_.write(p, Flush::sync, ec);
 
       if (ec == error::end_of_stream) {
+        ended_ = true;
+        ec = {};
+      } else if (ec == error::need_buffers && p.avail_in == 0) {
+        // the previous round has exactly filled the output
         ec = {};
       }
       if (ec) {
@@ -80,6 +92,13 @@ public:
       readable.consume(readable.size() - p.avail_in);
       buffer.commit(writable.size() - p.avail_out);
 
+      if (ended_) {
+        if (readable.size() > 0) {
+          // there is something after the end of the compressed data
+          co_return unexpected { make_error_code(error::general) };
+        }
+        break;
+      }
       if (readable.size() == 0 && p.avail_out > 0) {
         break;
       }
@@ -91,6 +110,8 @@ public:
 private:
   NextLayer next_;
   gzip_inflate_stream inflater_;
+  bool started_ = false;
+  bool ended_ = false;
 };
 
 template <typename NextLayer>
diff --git a/include/fitoria/web/middleware/detail/async_inflate_stream.hpp b/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
index c97fe43..20179f7 100644
--- a/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
@@ -40,6 +40,10 @@ public:
 
     auto data = co_await next_.async_read_some();
     if (!data) {
+      if (started_ && !ended_) {
+        // the compressed data is truncated
+        co_return unexpected { make_error_code(error::need_buffers) };
+      }
       co_return nullopt;
     }
 
@@ -49,6 +53,10 @@ public:
     if ((*data)->empty()) {
       co_return bytes();
     }
+    if (ended_) {
+      co_return unexpected { make_error_code(error::general) };
+    }
+    started_ = true;
 
     auto readable = dynamic_buffer<bytes>(std::move(**data));
 
@@ -68,6 +76,10 @@ public:
       inflater_.write(p, Flush::sync, ec);
 
       if (ec == error::end_of_stream) {
+        ended_ = true;
+        ec = {};
+      } else if (ec == error::need_buffers && p.avail_in == 0) {
+        // the previous round has exactly filled the output
         ec = {};
       }
       if (ec) {
@@ -77,6 +89,13 @@ public:
       readable.consume(readable.size() - p.avail_in);
       buffer.commit(writable.size() - p.avail_out);
 
+      if (ended_) {
+        if (readable.size() > 0) {
+          // there is something after the end of the compressed data
+          co_return unexpected { make_error_code(error::general) };
+        }
+        break;
+      }
       if (readable.size() == 0 && p.avail_out > 0) {
         break;
       }
@@ -88,6 +107,8 @@ public:
 private:
   NextLayer next_;
   boost::beast::zlib::inflate_stream inflater_;
+  bool started_ = false;
+  bool ended_ = false;
 };
 
 template <typename NextLayer>
-- 
2.43.0


From e1efc90a6b8c6541586056b35d415379a4b962e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:24 +0000
Subject: [PATCH 26/48] fix: compressing streams deliver all of the output,
 however much there is

---
 .../detail/async_brotli_deflate_stream.hpp    | 45 +++++++-----
 .../detail/async_deflate_stream.hpp           | 72 +++++++++++--------
 .../detail/async_gzip_deflate_stream.hpp      | 72 +++++++++++--------
 3 files changed, 112 insertions(+), 77 deletions(-)

diff --git a/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp b/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp
index 1d7e165..651d860 100644
--- a/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp
@@ -140,18 +140,19 @@ public:
       finish_ = true;
 
       auto buffer = dynamic_buffer<bytes>();
-      auto writable = buffer.prepare(65536);
+      do {
+        auto writable = buffer.prepare(65536);
 
-      auto p = broti_params(nullptr, 0, writable.data(), writable.size());
+        auto p = broti_params(nullptr, 0, writable.data(), writable.size());
 
-      auto ec = deflater_.write(p, brotli_encoder_operation::finish);
+        auto ec = deflater_.write(p, brotli_encoder_operation::finish);
+        if (ec) {
+          co_return unexpected { ec };
+        }
 
-      FITORIA_ASSERT(ec != brotli_error::need_more_output);
-      if (ec) {
-        co_return unexpected { ec };
-      }
+        buffer.commit(writable.size() - p.avail_out);
+      } while (!deflater_.is_done());
 
-      buffer.commit(writable.size() - p.avail_out);
       co_return buffer.release();
     }
 
@@ -164,20 +165,30 @@ public:
     }
 
     auto buffer = dynamic_buffer<bytes>();
-    auto writable
-        = buffer.prepare(std::max(readable->size(), std::size_t(65536)));
+    auto remaining = dynamic_buffer<bytes>(std::move(*readable));
 
-    auto p = broti_params(
-        readable->data(), readable->size(), writable.data(), writable.size());
+    for (;;) {
+      auto writable
+          = buffer.prepare(std::max(remaining.size(), std::size_t(65536)));
 
-    auto ec = deflater_.write(p, brotli_encoder_operation::process);
+      auto p = broti_params(remaining.cdata().data(),
+                            remaining.cdata().size(),
+                            writable.data(),
+                            writable.size());
 
-    FITORIA_ASSERT(ec != brotli_error::need_more_output);
-    if (ec) {
-      co_return unexpected { ec };
+      auto ec = deflater_.write(p, brotli_encoder_operation::process);
+      if (ec) {
+        co_return unexpected { ec };
+      }
+
+      remaining.consume(remaining.size() - p.avail_in);
+      buffer.commit(writable.size() - p.avail_out);
+
+      if (remaining.size() == 0 && p.avail_out > 0) {
+        break;
+      }
     }
 
-    buffer.commit(writable.size() - p.avail_out);
     co_return buffer.release();
   }
 
diff --git a/include/fitoria/web/middleware/detail/async_deflate_stream.hpp b/include/fitoria/web/middleware/detail/async_deflate_stream.hpp
index dd75801..504cc0d 100644
--- a/include/fitoria/web/middleware/detail/async_deflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_deflate_stream.hpp
@@ -47,26 +47,28 @@ public:
       finish_ = true;
 
       auto buffer = dynamic_buffer<bytes>();
-      auto writable = buffer.prepare(65536);
-
-      auto p = z_params();
-      p.next_in = nullptr;
-      p.avail_in = 0;
-      p.next_out = writable.data();
-      p.avail_out = writable.size();
-
-      boost::system::error_code ec;
-      deflater_.write(p, Flush::finish, ec);
-
-      FITORIA_ASSERT(ec != error::need_buffers);
-      if (ec == error::end_of_stream) {
-        ec = {};
-      }
-      if (ec) {
-        co_return unexpected { ec };
+      for (;;) {
+        auto writable = buffer.prepare(65536);
+
+        auto p = z_params();
+        p.next_in = nullptr;
+        p.avail_in = 0;
+        p.next_out = writable.data();
+        p.avail_out = writable.size();
+
+        boost::system::error_code ec;
+        deflater_.write(p, Flush::finish, ec);
+
+        buffer.commit(writable.size() - p.avail_out);
+
+        if (ec == error::end_of_stream) {
+          break;
+        }
+        if (ec && (ec != error::need_buffers || p.avail_out > 0)) {
+          co_return unexpected { ec };
+        }
       }
 
-      buffer.commit(writable.size() - p.avail_out);
       co_return buffer.release();
     }
 
@@ -79,23 +81,33 @@ public:
     }
 
     auto buffer = dynamic_buffer<bytes>();
-    auto writable
-        = buffer.prepare(std::max(readable->size(), std::size_t(65536)));
+    auto remaining = dynamic_buffer<bytes>(std::move(*readable));
 
-    auto p = z_params();
-    p.next_in = readable->data();
-    p.avail_in = readable->size();
-    p.next_out = writable.data();
-    p.avail_out = writable.size();
+    for (;;) {
+      auto writable
+          = buffer.prepare(std::max(remaining.size(), std::size_t(65536)));
 
-    boost::system::error_code ec;
-    deflater_.write(p, Flush::none, ec);
+      auto p = z_params();
+      p.next_in = remaining.cdata().data();
+      p.avail_in = remaining.cdata().size();
+      p.next_out = writable.data();
+      p.avail_out = writable.size();
+
+      boost::system::error_code ec;
+      deflater_.write(p, Flush::none, ec);
+
+      if (ec && (ec != error::need_buffers || p.avail_in > 0)) {
+        co_return unexpected { ec };
+      }
 
-    if (ec) {
-      co_return unexpected { ec };
+      remaining.consume(remaining.size() - p.avail_in);
+      buffer.commit(writable.size() - p.avail_out);
+
+      if (remaining.size() == 0 && p.avail_out > 0) {
+        break;
+      }
     }
 
-    buffer.commit(writable.size() - p.avail_out);
     co_return buffer.release();
   }
 
diff --git a/include/fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp b/include/fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp
index 2f3b57b..8516373 100644
--- a/include/fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp
@@ -50,26 +50,28 @@ public:
       finish_ = true;
 
       auto buffer = dynamic_buffer<bytes>();
-      auto writable = buffer.prepare(65536);
-
-      auto p = z_params();
-      p.next_in = nullptr;
-      p.avail_in = 0;
-      p.next_out = writable.data();
-      p.avail_out = writable.size();
-
-      boost::system::error_code ec;
-      deflater_.write(p, Flush::finish, ec);
-
-      FITORIA_ASSERT(ec != error::need_buffers);
-      if (ec == error::end_of_stream) {
-        ec = {};
-      }
-      if (ec) {
-        co_return unexpected { ec };
+      for (;;) {
+        auto writable = buffer.prepare(65536);
+
+        auto p = z_params();
+        p.next_in = nullptr;
+        p.avail_in = 0;
+        p.next_out = writable.data();
+        p.avail_out = writable.size();
+
+        boost::system::error_code ec;
+        deflater_.write(p, Flush::finish, ec);
+
+        buffer.commit(writable.size() - p.avail_out);
+
+        if (ec == error::end_of_stream) {
+          break;
+        }
+        if (ec && (ec != error::need_buffers || p.avail_out > 0)) {
+          co_return unexpected { ec };
+        }
       }
 
-      buffer.commit(writable.size() - p.avail_out);
       co_return buffer.release();
     }
 
@@ -82,23 +84,33 @@ public:
     }
 
     auto buffer = dynamic_buffer<bytes>();
-    auto writable
-        = buffer.prepare(std::max(readable->size(), std::size_t(65536)));
+    auto remaining = dynamic_buffer<bytes>(std::move(*readable));
 
-    auto p = z_params();
-    p.next_in = readable->data();
-    p.avail_in = readable->size();
-    p.next_out = writable.data();
-    p.avail_out = writable.size();
+    for (;;) {
+      auto writable
+          = buffer.prepare(std::max(remaining.size(), std::size_t(65536)));
 
-    boost::system::error_code ec;
-    deflater_.write(p, Flush::none, ec);
+      auto p = z_params();
+      p.next_in = remaining.cdata().data();
+      p.avail_in = remaining.cdata().size();
+      p.next_out = writable.data();
+      p.avail_out = writable.size();
+
+      boost::system::error_code ec;
+      deflater_.write(p, Flush::none, ec);
+
+      if (ec && (ec != error::need_buffers || p.avail_in > 0)) {
+        co_return unexpected { ec };
+      }
 
-    if (ec) {
-      co_return unexpected { ec };
+      remaining.consume(remaining.size() - p.avail_in);
+      buffer.commit(writable.size() - p.avail_out);
+
+      if (remaining.size() == 0 && p.avail_out > 0) {
+        break;
+      }
     }
 
-    buffer.commit(writable.size() - p.avail_out);
     co_return buffer.release();
   }
 
-- 
2.43.0


From 34e5a2be49881a39b5cf0bbc813caa8c2d12f997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:43 +0000
Subject: [PATCH 27/48] fix: the decompress middleware takes every
 Content-Encoding field into account

---
 include/fitoria/web/middleware/decompress.hpp | 34 ++++++++-----------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/include/fitoria/web/middleware/decompress.hpp b/include/fitoria/web/middleware/decompress.hpp
index b38e738..2dcf6ab 100644
--- a/include/fitoria/web/middleware/decompress.hpp
+++ b/include/fitoria/web/middleware/decompress.hpp
@@ -34,8 +34,19 @@ class decompress_middleware {
 public:
   auto operator()(Request req) const -> Response
   {
-    if (auto str = req.headers().get(http::field::content_encoding); str) {
-      auto encs = split_of(*str, ",");
+    if (req.headers().contains(http::field::content_encoding)) {
+      // several fields of the name mean the same as one with all the values
+      std::string str;
+      auto [first, last]
+          = req.headers().equal_range(http::field::content_encoding);
+      for (auto it = first; it != last; ++it) {
+        if (!str.empty()) {
+          str += ",";
+        }
+        str += it->value();
+      }
+
+      auto encs = split_of(str, ",");
       std::reverse(encs.begin(), encs.end());
 
       auto body = std::move(req.body());
@@ -57,17 +68,11 @@ public:
               .set_header(http::field::content_type, mime::text_plain())
               .set_body(R"(unsupported "Content-Encoding".)");
         }
-        *str = remove_last_encoding(*str);
       }
 
       auto builder = req.builder();
 
-      if (str->empty()) {
-        builder.headers().erase(http::field::content_encoding);
-      } else {
-        builder.set_header(http::field::content_encoding, *str);
-      }
-
+      builder.headers().erase(http::field::content_encoding);
       req = builder.set_body(std::move(body));
     }
 
@@ -81,17 +86,6 @@ private:
   {
   }
 
-  static auto remove_last_encoding(std::string_view str) -> std::string_view
-  {
-    if (auto pos = str.find_last_of(','); pos != std::string_view::npos) {
-      str = str.substr(0, pos);
-    } else {
-      str = {};
-    }
-
-    return str;
-  }
-
   Next next_;
 };
 
-- 
2.43.0


From 7ab8c38921c390569cca8b546fee623a59047858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 28/48] fix: scope::use_state does not change the scope it is
 called on, nor what was served before

---
 include/fitoria/web/route.hpp | 20 +++++++++++++++++---
 include/fitoria/web/scope.hpp | 29 ++++++++++++++++-------------
 2 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/include/fitoria/web/route.hpp b/include/fitoria/web/route.hpp
index e9416f2..bbdd703 100644
--- a/include/fitoria/web/route.hpp
+++ b/include/fitoria/web/route.hpp
@@ -83,13 +83,27 @@ public:
   auto rebind_parent(shared_state_map parent_state_map,
                      std::tuple<ParentServices...> parent_services) const
   {
+    return rebind_parent<ParentPath>(
+        shared_state_maps { std::move(parent_state_map) },
+        std::move(parent_services));
+  }
+
+  template <basic_fixed_string ParentPath, typename... ParentServices>
+  auto rebind_parent(const shared_state_maps& parent_state_maps,
+                     std::tuple<ParentServices...> parent_services) const
+  {
+    auto states = states_;
+    for (auto& map : parent_state_maps) {
+      if (!map->empty()) {
+        states = states.copy_append(map);
+      }
+    }
+
     return route_impl<ParentPath + Path,
                       std::tuple<ParentServices..., Middlewares...>,
                       Handler>(
         method_,
-        parent_state_map->empty()
-            ? states_
-            : states_.copy_append(std::move(parent_state_map)),
+        std::move(states),
         std::tuple_cat(std::move(parent_services), middlewares_),
         handler_);
   }
diff --git a/include/fitoria/web/scope.hpp b/include/fitoria/web/scope.hpp
index 1ff3a32..e7e9c98 100644
--- a/include/fitoria/web/scope.hpp
+++ b/include/fitoria/web/scope.hpp
@@ -23,23 +23,22 @@ class scope_impl;
 
 template <basic_fixed_string Path, typename... Middlewares, typename... Routes>
 class scope_impl<Path, std::tuple<Middlewares...>, std::tuple<Routes...>> {
-  shared_state_map state_map_;
+  shared_state_maps state_maps_;
   std::tuple<Middlewares...> middlewares_;
   std::tuple<Routes...> routes_;
 
 public:
   scope_impl(std::tuple<Middlewares...> middlewares,
              std::tuple<Routes...> routes)
-      : state_map_(std::make_shared<state_map>())
-      , middlewares_(std::move(middlewares))
+      : middlewares_(std::move(middlewares))
       , routes_(std::move(routes))
   {
   }
 
-  scope_impl(shared_state_map state_map,
+  scope_impl(shared_state_maps state_maps,
              std::tuple<Middlewares...> middlewares,
              std::tuple<Routes...> routes)
-      : state_map_(std::move(state_map))
+      : state_maps_(std::move(state_maps))
       , middlewares_(std::move(middlewares))
       , routes_(std::move(routes))
   {
@@ -51,12 +50,16 @@ public:
     using state_type = std::decay_t<State>;
     static_assert(std::copy_constructible<state_type>);
 
-    auto state_map = state_map_;
-    (*state_map)[std::type_index(typeid(state_type))]
+    // the existing maps are shared, a new one is needed to hold the object
+    auto map = std::make_shared<state_map>();
+    (*map)[std::type_index(typeid(state_type))]
         = std::any(std::forward<State>(state));
 
+    auto state_maps = state_maps_;
+    state_maps.insert(state_maps.begin(), std::move(map));
+
     return scope_impl<Path, std::tuple<Middlewares...>, std::tuple<Routes...>>(
-        std::move(state_map), middlewares_, routes_);
+        std::move(state_maps), middlewares_, routes_);
   }
 
   template <typename Middleware>
@@ -65,7 +68,7 @@ public:
     return scope_impl<Path,
                       std::tuple<Middlewares..., std::decay_t<Middleware>>,
                       std::tuple<Routes...>>(
-        state_map_,
+        state_maps_,
         std::tuple_cat(middlewares_,
                        std::tuple { std::forward<Middleware>(mw) }),
         routes_);
@@ -78,12 +81,12 @@ public:
       route_impl<RoutePath, std::tuple<RouteServices...>, Handler> route) const
   {
     auto new_route
-        = route.template rebind_parent<Path>(state_map_, middlewares_);
+        = route.template rebind_parent<Path>(state_maps_, middlewares_);
 
     return scope_impl<Path,
                       std::tuple<Middlewares...>,
                       std::tuple<Routes..., decltype(new_route)>> {
-      state_map_,
+      state_maps_,
       middlewares_,
       std::tuple_cat(routes_, std::tuple { std::move(new_route) }),
     };
@@ -99,14 +102,14 @@ public:
     auto routes = std::apply(
         [this](auto&&... routes_) {
           return std::tuple { routes_.template rebind_parent<Path>(
-              state_map_, middlewares_)... };
+              state_maps_, middlewares_)... };
         },
         child.routes());
 
     return scope_impl<Path,
                       std::tuple<Middlewares...>,
                       decltype(std::tuple_cat(routes_, std::move(routes)))> {
-      state_map_,
+      state_maps_,
       middlewares_,
       std::tuple_cat(routes_, std::move(routes)),
     };
-- 
2.43.0


From 833bb6036fa2fb90b81c2eb0215e7407a7a69a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:14 +0000
Subject: [PATCH 29/48] fix: request_builder::set_body(std::string_view) and
 set_json return the request they build

---
 include/fitoria/web/request.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/fitoria/web/request.hpp b/include/fitoria/web/request.hpp
index a9ae7d5..244635e 100644
--- a/include/fitoria/web/request.hpp
+++ b/include/fitoria/web/request.hpp
@@ -410,8 +410,7 @@ public:
   /// @endverbatim
   auto set_body(std::string_view sv) -> request
   {
-    set_body(std::as_bytes(std::span(sv.begin(), sv.end())));
-    return build();
+    return set_body(std::as_bytes(std::span(sv.begin(), sv.end())));
   }
 
   /// @verbatim embed:rst:leading-slashes
@@ -444,8 +443,7 @@ public:
   {
     auto str = boost::json::serialize(jv);
     set_header(http::field::content_type, mime::application_json());
-    set_body(std::as_bytes(std::span(str.begin(), str.end())));
-    return build();
+    return set_body(std::as_bytes(std::span(str.begin(), str.end())));
   }
 
   /// @verbatim embed:rst:leading-slashes
-- 
2.43.0


From f8268a3ba6433a5d1cb7755f133876fcbaccc037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:32 +0000
Subject: [PATCH 30/48] fix: an empty piece of a chunked body does not end the
 body

---
 include/fitoria/web/async_write_chunks.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fitoria/web/async_write_chunks.hpp b/include/fitoria/web/async_write_chunks.hpp
index b0586d0..02052ff 100644
--- a/include/fitoria/web/async_write_chunks.hpp
+++ b/include/fitoria/web/async_write_chunks.hpp
@@ -34,6 +34,10 @@ auto async_write_chunks(AsyncWritableStream&& to, AsyncReadableStream&& from)
        data = co_await from.async_read_some()) {
     auto& d = *data;
     if (d) {
+      // a chunk without data would end the body
+      if (d->empty()) {
+        continue;
+      }
       if (auto result = co_await async_write(
               to, make_chunk(net::buffer(*d)), use_awaitable);
           !result) {
-- 
2.43.0


From 0d9069cd9dbad58715229e65c8cc5f36eb03618c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:32 +0000
Subject: [PATCH 31/48] fix: the part of a request body its handler did not
 read is not taken for the next request

---
 include/fitoria/web/http_server.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index a119e23..339d3d1 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -496,6 +496,15 @@ private:
       if (!keep_alive) {
         break;
       }
+
+      // the next request starts after what the handler left of this one's body
+      auto rest = async_message_parser_stream(buffer, stream, parser);
+      for (auto data = co_await rest.async_read_some(); data;
+           data = co_await rest.async_read_some()) {
+        if (!*data) {
+          co_return unexpected { data->error() };
+        }
+      }
     }
 
     co_return expected<void, std::error_code>();
-- 
2.43.0


From e07303d7795816c647ddd6f6664a899cf7326920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:31 +0000
Subject: [PATCH 32/48] fix: responses to HEAD and with status 204 or 304 have
 no body

---
 include/fitoria/web/http_server.hpp | 51 ++++++++++++++++++++++++-----
 include/fitoria/web/test_utils.hpp  |  2 ++
 2 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index 339d3d1..3ee9e72 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -413,7 +413,8 @@ private:
               = web::response::bad_request()
                     .set_header(http::field::content_type, mime::text_plain())
                     .set_body("request headers size exceeds limit");
-          co_return co_await do_response(stream, res, false);
+          co_return co_await do_response(
+              stream, res, http::verb::unknown, false);
         } else {
           co_return unexpected { bytes_read.error() };
         }
@@ -488,7 +489,9 @@ private:
           co_return unexpected { result.error() };
         }
       } else {
-        if (auto exp = co_await do_response(stream, res, keep_alive); !exp) {
+        if (auto exp = co_await do_response(
+                stream, res, parser->get().method(), keep_alive);
+            !exp) {
           co_return unexpected { exp.error() };
         }
       }
@@ -511,18 +514,31 @@ private:
   }
 
   template <typename Stream>
-  auto do_response(Stream& stream, response& res, bool keep_alive) const
+  auto do_response(Stream& stream,
+                   response& res,
+                   http::verb method,
+                   bool keep_alive) const
       -> awaitable<expected<void, std::error_code>>
   {
+    // responses with these statuses never have a body
+    // https://datatracker.ietf.org/doc/html/rfc7230#section-3.3
+    if (res.status().category() == http::status_class::informational
+        || res.status().value() == http::status::no_content
+        || res.status().value() == http::status::not_modified) {
+      co_return co_await do_null_body_response(stream, res, keep_alive);
+    }
+
     co_return co_await std::visit(
         overloaded { [&](any_body::null) {
                       return do_null_body_response(stream, res, keep_alive);
                     },
                      [&](any_body::sized) {
-                       return do_sized_response(stream, res, keep_alive);
+                       return do_sized_response(
+                           stream, res, method, keep_alive);
                      },
                      [&](any_body::chunked) {
-                       return do_chunked_response(stream, res, keep_alive);
+                       return do_chunked_response(
+                           stream, res, method, keep_alive);
                      } },
         res.body().size());
   }
@@ -543,7 +559,8 @@ private:
     // boost.beast incorrectly handle some cases
     // https://datatracker.ietf.org/doc/html/rfc7230#section-3.3.2
     if (res.status().category() == http::status_class::informational
-        || res.status().value() == http::status::no_content) {
+        || res.status().value() == http::status::no_content
+        || res.status().value() == http::status::not_modified) {
       r.content_length(boost::none);
     }
 
@@ -551,10 +568,14 @@ private:
   }
 
   template <typename Stream>
-  auto do_sized_response(Stream& stream, response& res, bool keep_alive) const
+  auto do_sized_response(Stream& stream,
+                         response& res,
+                         http::verb method,
+                         bool keep_alive) const
       -> awaitable<expected<void, std::error_code>>
   {
     using boost::beast::http::response;
+    using boost::beast::http::response_serializer;
     using boost::beast::http::vector_body;
 
     auto r = response<vector_body<std::byte>>(
@@ -569,11 +590,20 @@ private:
     r.keep_alive(keep_alive);
     r.prepare_payload();
 
+    // the response to HEAD is the header only
+    if (method == http::verb::head) {
+      auto ser = response_serializer<vector_body<std::byte>>(r);
+      co_return co_await async_write_header(stream, ser, use_awaitable);
+    }
+
     co_return co_await async_write(stream, r, use_awaitable);
   }
 
   template <typename Stream>
-  auto do_chunked_response(Stream& stream, response& res, bool keep_alive) const
+  auto do_chunked_response(Stream& stream,
+                           response& res,
+                           http::verb method,
+                           bool keep_alive) const
       -> awaitable<expected<void, std::error_code>>
   {
     using boost::beast::http::empty_body;
@@ -593,6 +623,11 @@ private:
       co_return unexpected { result.error() };
     }
 
+    // the response to HEAD is the header only
+    if (method == http::verb::head) {
+      co_return expected<void, std::error_code>();
+    }
+
     co_return co_await async_write_chunks(stream, res.body().stream());
   }
 
diff --git a/include/fitoria/web/test_utils.hpp b/include/fitoria/web/test_utils.hpp
index a312221..739122d 100644
--- a/include/fitoria/web/test_utils.hpp
+++ b/include/fitoria/web/test_utils.hpp
@@ -154,6 +154,8 @@ auto do_http_request(Stream stream, std::string path, test_request& req)
 
   auto buffer = std::make_shared<flat_buffer>();
   auto parser = std::make_shared<response_parser<buffer_body>>();
+  // the response to HEAD has no body, whatever its header says
+  parser->skip(req.method() == http::verb::head);
   if (auto bytes_read
       = co_await async_read_header(stream, *buffer, *parser, use_awaitable);
       !bytes_read) {
-- 
2.43.0


From 2dcfd6b6af534a41e5a336505c8814635deaac4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:11 +0000
Subject: [PATCH 33/48] fix: no chunked bodies for HTTP/1.0 clients

---
 include/fitoria/web/http_server.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index 3ee9e72..01f49f2 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -413,8 +413,7 @@ private:
               = web::response::bad_request()
                     .set_header(http::field::content_type, mime::text_plain())
                     .set_body("request headers size exceeds limit");
-          co_return co_await do_response(
-              stream, res, http::verb::unknown, false);
+          co_return co_await do_response(stream, res, parser->get(), false);
         } else {
           co_return unexpected { bytes_read.error() };
         }
@@ -489,8 +488,8 @@ private:
           co_return unexpected { result.error() };
         }
       } else {
-        if (auto exp = co_await do_response(
-                stream, res, parser->get().method(), keep_alive);
+        if (auto exp
+            = co_await do_response(stream, res, parser->get(), keep_alive);
             !exp) {
           co_return unexpected { exp.error() };
         }
@@ -513,10 +512,10 @@ private:
     co_return expected<void, std::error_code>();
   }
 
-  template <typename Stream>
+  template <typename Stream, typename Request>
   auto do_response(Stream& stream,
                    response& res,
-                   http::verb method,
+                   const Request& req,
                    bool keep_alive) const
       -> awaitable<expected<void, std::error_code>>
   {
@@ -534,11 +533,16 @@ private:
                     },
                      [&](any_body::sized) {
                        return do_sized_response(
-                           stream, res, method, keep_alive);
+                           stream, res, req.method(), keep_alive);
                      },
                      [&](any_body::chunked) {
+                       // HTTP/1.0 clients don't know chunks
+                       if (req.version() < 11) {
+                         return do_sized_response(
+                             stream, res, req.method(), keep_alive);
+                       }
                        return do_chunked_response(
-                           stream, res, method, keep_alive);
+                           stream, res, req.method(), keep_alive);
                      } },
         res.body().size());
   }
-- 
2.43.0


From c5cc7e1b2d71b0306d2001582d78abbc8c351207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 34/48] fix: a body extracted as std::vector<T> holds its bytes
 as values of T

---
 include/fitoria/web/from_request.hpp | 31 +++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/include/fitoria/web/from_request.hpp b/include/fitoria/web/from_request.hpp
index 0068cfd..a2c57ed 100644
--- a/include/fitoria/web/from_request.hpp
+++ b/include/fitoria/web/from_request.hpp
@@ -11,6 +11,7 @@
 
 #include <fitoria/core/config.hpp>
 
+#include <fitoria/core/bytes.hpp>
 #include <fitoria/core/expected.hpp>
 #include <fitoria/core/net.hpp>
 #include <fitoria/core/tag_invoke.hpp>
@@ -20,6 +21,10 @@
 #include <fitoria/web/request.hpp>
 #include <fitoria/web/response.hpp>
 
+#include <cstring>
+#include <type_traits>
+#include <vector>
+
 FITORIA_NAMESPACE_BEGIN
 
 namespace web {
@@ -99,15 +104,35 @@ namespace from_request_ns {
       requires(is_specialization_of_v<R, std::vector>)
     {
       static_assert(not_cvref<R>, "R must not be cvref qualified");
+      using value_type = typename R::value_type;
+      static_assert(std::is_trivially_copyable_v<value_type>,
+                    "value_type must be trivially copyable");
 
-      if (auto result = co_await async_read_until_eof<R>(req.body()); result) {
-        co_return std::move(*result);
-      } else {
+      auto result = co_await async_read_until_eof<bytes>(req.body());
+      if (!result) {
         co_return unexpected { response::bad_request()
                                    .set_header(http::field::content_type,
                                                mime::text_plain())
                                    .set_body("unable to read request body.") };
       }
+
+      if constexpr (std::same_as<R, bytes>) {
+        co_return std::move(*result);
+      } else {
+        if (result->size() % sizeof(value_type) != 0) {
+          co_return unexpected {
+            response::bad_request()
+                .set_header(http::field::content_type, mime::text_plain())
+                .set_body("size of request body is not expected.")
+          };
+        }
+
+        auto values = R(result->size() / sizeof(value_type));
+        if (!values.empty()) {
+          std::memcpy(values.data(), result->data(), result->size());
+        }
+        co_return values;
+      }
     }
   };
 
-- 
2.43.0


From 2108900f15135c6b1c8cd4d6d01d8dc5aa5531a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 35/48] fix: file names with quotes, backslashes or control
 characters made a malformed Content-Disposition

---
 include/fitoria/web/static_file.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/web/static_file.hpp b/include/fitoria/web/static_file.hpp
index 51b07aa..15d7f28 100644
--- a/include/fitoria/web/static_file.hpp
+++ b/include/fitoria/web/static_file.hpp
@@ -365,8 +365,16 @@ private:
       return fmt::format("inline");
     }
 
-    auto p = std::filesystem::path(path);
-    return fmt::format(R"(attachment; filename="{}")", p.filename().string());
+    // file name is a quoted-string, which can not contain control characters
+    auto name = std::string();
+    for (auto c : std::filesystem::path(path).filename().string()) {
+      if (c == '"' || c == '\\') {
+        name += '\\';
+      }
+      const auto u = static_cast<unsigned char>(c);
+      name += u < 0x20 || u == 0x7f ? '_' : c;
+    }
+    return fmt::format(R"(attachment; filename="{}")", name);
   }
 
   static auto check_if_not_modified(
-- 
2.43.0


From e6a893bb5d2f7953bbe843c4dd6899b706133c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 36/48] fix: an empty range of a static file was answered 206
 with an impossible Content-Range

---
 include/fitoria/web/static_file.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/web/static_file.hpp b/include/fitoria/web/static_file.hpp
index 15d7f28..66b88d5 100644
--- a/include/fitoria/web/static_file.hpp
+++ b/include/fitoria/web/static_file.hpp
@@ -207,7 +207,7 @@ public:
 
     if (auto header = req.headers().get(http::field::range); header) {
       if (auto range = http::header::range::parse(*header, file->size()); range
-          && cmp_eq_ci(range->unit(), "bytes")
+          && cmp_eq_ci(range->unit(), "bytes") && (*range)[0].length > 0
           && (*range)[0].offset + (*range)[0].length <= file->size()) {
         return static_file(std::move(*file),
                            ct,
-- 
2.43.0


From e72806450a5acb5870609ce87caddc2154fb7c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 37/48] fix: If-Modified-Since ignored the time that was sent
 as Last-Modified

---
 include/fitoria/web/static_file.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/web/static_file.hpp b/include/fitoria/web/static_file.hpp
index 66b88d5..0335829 100644
--- a/include/fitoria/web/static_file.hpp
+++ b/include/fitoria/web/static_file.hpp
@@ -398,7 +398,10 @@ private:
 
     if (auto header = headers.get(http::field::if_modified_since); header) {
       if (auto d = http::header::date::parse(*header); d) {
-        return http::header::date(last_modified_time) <= *d;
+        // dates in headers have no fraction of a second
+        return http::header::date(std::chrono::floor<std::chrono::seconds>(
+                   last_modified_time))
+            <= *d;
       }
 
       return nullopt;
-- 
2.43.0


From de9a2317a894bc78475f653436127fc8fbfee8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 38/48] fix: static_file opened directories and failed in the
 middle of the response

---
 include/fitoria/web/static_file.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/fitoria/web/static_file.hpp b/include/fitoria/web/static_file.hpp
index 0335829..7b258b2 100644
--- a/include/fitoria/web/static_file.hpp
+++ b/include/fitoria/web/static_file.hpp
@@ -328,6 +328,12 @@ private:
       return unexpected { ec };
     }
 
+    // directories can be opened but not read
+    std::error_code fec;
+    if (std::filesystem::is_directory(path, fec)) {
+      return unexpected { std::make_error_code(std::errc::is_a_directory) };
+    }
+
     return file;
   }
 
-- 
2.43.0


From 73e283a3efa4734b0f638207234e650a19658fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 39/48] fix: answer 426 to websocket versions other than 13

---
 include/fitoria/web/websocket.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fitoria/web/websocket.hpp b/include/fitoria/web/websocket.hpp
index e8753c2..9a3fa31 100644
--- a/include/fitoria/web/websocket.hpp
+++ b/include/fitoria/web/websocket.hpp
@@ -523,6 +523,7 @@ private:
       builder.set_header(http::field::sec_websocket_version, "13");
       impl_->set_response(builder.set_body(
           make_error_code(ws::error::bad_sec_version).message()));
+      return;
     }
 
     builder.set_header(http::field::upgrade, "websocket");
-- 
2.43.0


From c4ed8b788beb6a3e10fb461706a781d8a2cb50e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 40/48] fix: a response other than that of
 websocket::set_handler() does not switch the protocol

---
 include/fitoria/web/http_server.hpp | 18 ++++++++++--------
 include/fitoria/web/websocket.hpp   | 13 +++++++++++++
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index 01f49f2..28b24f1 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -424,9 +424,6 @@ private:
       auto session_state = std::make_shared<state_map>();
 
       if (upgrade) {
-        // timeout must be turned off, websocket has its own timeout mechanism
-        get_lowest_layer(stream).expires_never();
-
         // we don't handle expect: 100-continue here,
         // boost::beast::websocket::stream::accept() will do it for us
         (*session_state)[std::type_index(typeid(websocket))]
@@ -480,11 +477,16 @@ private:
                   .set_body("request target is invalid");
       }
 
-      if (upgrade) {
-        auto& ws = *std::any_cast<websocket>(
-            &(*session_state)[std::type_index(typeid(websocket))]);
-        ws.set_response(std::move(res));
-        if (auto result = co_await ws.run(parser->get()); !result) {
+      if (auto* ws = upgrade
+              ? std::any_cast<websocket>(
+                    &(*session_state)[std::type_index(typeid(websocket))])
+              : nullptr;
+          ws && ws->is_accepted(res)) {
+        // timeout must be turned off, websocket has its own timeout mechanism
+        get_lowest_layer(stream).expires_never();
+
+        ws->set_response(std::move(res));
+        if (auto result = co_await ws->run(parser->get()); !result) {
           co_return unexpected { result.error() };
         }
       } else {
diff --git a/include/fitoria/web/websocket.hpp b/include/fitoria/web/websocket.hpp
index 9a3fa31..be551a8 100644
--- a/include/fitoria/web/websocket.hpp
+++ b/include/fitoria/web/websocket.hpp
@@ -243,6 +243,11 @@ public:
       callback_ = std::move(callback);
     }
 
+    auto has_callback() const noexcept -> bool
+    {
+      return static_cast<bool>(callback_);
+    }
+
     auto callback() noexcept -> callback_type&
     {
       FITORIA_ASSERT(callback_);
@@ -435,6 +440,14 @@ public:
   }
 
 private:
+  // only a handler that called set_handler() and returned its response switches
+  // the protocol
+  auto is_accepted(const response& res) const noexcept -> bool
+  {
+    return impl_->has_callback()
+        && res.status().value() == http::status::switching_protocols;
+  }
+
   template <typename Body>
   auto run(boost::beast::http::request<Body>& req)
       -> awaitable<expected<void, std::error_code>>
-- 
2.43.0


From 6ad7995a2535fbb94b8e965cc37f5015d337438a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 41/48] fix: a connection that switched to websocket serves no
 more requests

---
 include/fitoria/web/http_server.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index 28b24f1..f1a3e9c 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -486,9 +486,8 @@ private:
         get_lowest_layer(stream).expires_never();
 
         ws->set_response(std::move(res));
-        if (auto result = co_await ws->run(parser->get()); !result) {
-          co_return unexpected { result.error() };
-        }
+        // the connection doesn't speak HTTP anymore
+        co_return co_await ws->run(parser->get());
       } else {
         if (auto exp
             = co_await do_response(stream, res, parser->get(), keep_alive);
-- 
2.43.0


From 06292ed7a547eab277760fa32e69947e3dd9d01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 42/48] fix: send the headers of the response that accepts a
 websocket

---
 include/fitoria/web/websocket.hpp | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/include/fitoria/web/websocket.hpp b/include/fitoria/web/websocket.hpp
index be551a8..2a850e2 100644
--- a/include/fitoria/web/websocket.hpp
+++ b/include/fitoria/web/websocket.hpp
@@ -454,21 +454,17 @@ private:
   {
     namespace ws = boost::beast::websocket;
 
-    if (auto res = impl_->release_response();
-        !std::holds_alternative<any_body::null>(res.body().size())) {
-      auto body
-          = co_await async_read_until_eof<std::string>(res.body().stream());
-      if (!body) {
-        co_return unexpected { body.error() };
+    auto res = impl_->release_response();
+    impl_->set_option(ws::stream_base::decorator([&res](ws::response_type& r) {
+      for (auto& field : res.headers()) {
+        // already set, these belong to the handshake
+        if (field.name() != http::field::upgrade
+            && field.name() != http::field::connection
+            && field.name() != http::field::sec_websocket_accept) {
+          r.insert(field.name_string(), field.value());
+        }
       }
-      impl_->set_option(ws::stream_base::decorator(
-          [&res, body = std::move(body)](ws::response_type& r) {
-            for (auto& field : res.headers()) {
-              r.set(field.name_string(), field.value());
-            }
-            r.body() = std::move(*body);
-          }));
-    }
+    }));
 
     if (auto result = co_await impl_->async_accept(req); !result) {
       co_return unexpected { result.error() };
-- 
2.43.0


From 65caf32606246a001936723d8e14abcb275b92d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 43/48] fix: log records are written in order, and a logger
 ends after its last record

---
 include/fitoria/log/async_logger.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/fitoria/log/async_logger.hpp b/include/fitoria/log/async_logger.hpp
index d2569bf..ba6e009 100644
--- a/include/fitoria/log/async_logger.hpp
+++ b/include/fitoria/log/async_logger.hpp
@@ -49,7 +49,8 @@ class async_logger {
   {
     for (;;) {
       auto rec = co_await channel_.async_receive(use_awaitable);
-      if (!rec) {
+      // null is the last one, see the destructor
+      if (!rec || !*rec) {
         break;
       }
 
@@ -57,10 +58,10 @@ class async_logger {
     }
   }
 
-  auto async_enqueue(record_ptr rec) -> awaitable<void>
+  void enqueue(record_ptr rec)
   {
-    [[maybe_unused]] auto result = co_await channel_.async_send(
-        boost::system::error_code(), rec, use_awaitable);
+    channel_.async_send(
+        boost::system::error_code(), std::move(rec), net::detached);
   }
 
   void log(record::clock_t::time_point time,
@@ -68,10 +69,7 @@ class async_logger {
            level lv,
            std::string msg)
   {
-    net::co_spawn(
-        net::system_executor(),
-        async_enqueue(std::make_shared<record>(time, loc, lv, std::move(msg))),
-        net::detached);
+    enqueue(std::make_shared<record>(time, loc, lv, std::move(msg)));
   }
 
 public:
@@ -112,9 +110,9 @@ public:
 
   ~async_logger()
   {
-    channel_.cancel();
+    // the records before it are written first
+    enqueue(nullptr);
 
-    // TODO: investigate if it hangs when `-fsanitizer=address` is on ?
     if (auto status = fut_.wait_for(std::chrono::seconds(30));
         status == std::future_status::ready) {
       fut_.get();
-- 
2.43.0


From 8d7c52d9d577286f65d4908d80e3168ddc185b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:43 +0000
Subject: [PATCH 44/48] fix: bind_local() returns an error for a path that is
 too long

---
 include/fitoria/web/detail/make_endpoint.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/fitoria/web/detail/make_endpoint.hpp b/include/fitoria/web/detail/make_endpoint.hpp
index 58f6236..92f5585 100644
--- a/include/fitoria/web/detail/make_endpoint.hpp
+++ b/include/fitoria/web/detail/make_endpoint.hpp
@@ -42,7 +42,16 @@ inline auto make_endpoint(std::string_view ip_addr, std::uint16_t port)
 inline auto make_endpoint(std::string_view file_path)
     -> expected<net::local::stream_protocol::endpoint, std::error_code>
 {
+#if FITORIA_NO_EXCEPTIONS
   return net::local::stream_protocol::endpoint(file_path);
+#else
+  try {
+    return net::local::stream_protocol::endpoint(file_path);
+  } catch (const boost::system::system_error& ex) {
+    // the path is too long
+    return unexpected { ex.code() };
+  }
+#endif
 }
 
 }
-- 
2.43.0


From 5b20edf68aff62675ce729054e8164337e6f81be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:00 +0000
Subject: [PATCH 45/48] fix: an exception of any type that a handler throws
 only ends its connection

---
 include/fitoria/web/http_server.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index f1a3e9c..36c058a 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -646,6 +646,8 @@ private:
         std::rethrow_exception(ptr);
       } catch (const std::exception& ex) {
         log::debug("[{}] exception: {}", name(), ex.what());
+      } catch (...) {
+        log::debug("[{}] exception: unknown", name());
       }
     }
   }
-- 
2.43.0


From 6408fc0bff1a9c60b30e6b3788ac6e1ca5e4bcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:46 +0000
Subject: [PATCH 46/48] fix: leave the client of serve_request as it was

---
 include/fitoria/web/test_utils.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/fitoria/web/test_utils.hpp b/include/fitoria/web/test_utils.hpp
index 739122d..a312221 100644
--- a/include/fitoria/web/test_utils.hpp
+++ b/include/fitoria/web/test_utils.hpp
@@ -154,8 +154,6 @@ auto do_http_request(Stream stream, std::string path, test_request& req)
 
   auto buffer = std::make_shared<flat_buffer>();
   auto parser = std::make_shared<response_parser<buffer_body>>();
-  // the response to HEAD has no body, whatever its header says
-  parser->skip(req.method() == http::verb::head);
   if (auto bytes_read
       = co_await async_read_header(stream, *buffer, *parser, use_awaitable);
       !bytes_read) {
-- 
2.43.0


From c0dd4099296f55e615356c0f15236373ff70fb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:59 +0000
Subject: [PATCH 47/48] fix: serve_request does not wait for the body of a
 response to HEAD

---
 include/fitoria/web/http_server.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index 36c058a..d2e3c14 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -294,7 +294,15 @@ public:
            std::string path,
            test_request tr,
            ResponseHandler handler) -> awaitable<void> {
-          co_await handler(*(co_await do_http_request(stream, path, tr)));
+          auto res = *(co_await do_http_request(stream, path, tr));
+          // the response to HEAD has no body, whatever its header says
+          if (tr.method() == http::verb::head) {
+            res = test_response(res.status(),
+                                res.version(),
+                                res.headers(),
+                                async_readable_vector_stream());
+          }
+          co_await handler(std::move(res));
         }(stream, std::move(path), std::move(req), std::move(handler)),
         net::detached);
   }
-- 
2.43.0


From 75a62d36c7433c2540b15106575f60cc08cbda96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:09 +0000
Subject: [PATCH 48/48] fix: on macOS, floating-point text is read to its end
 and no further, whatever errno is

---
 .../fitoria/core/detail/from_string_impl.hpp  | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/fitoria/core/detail/from_string_impl.hpp b/include/fitoria/core/detail/from_string_impl.hpp
index 02f82a2..f9b6b18 100644
--- a/include/fitoria/core/detail/from_string_impl.hpp
+++ b/include/fitoria/core/detail/from_string_impl.hpp
@@ -17,7 +17,9 @@
 #include <string_view>
 
 #if defined(FITORIA_TARGET_MACOS)
+#include <cerrno>
 #include <cstdlib>
+#include <string>
 #endif
 
 FITORIA_NAMESPACE_BEGIN
@@ -53,7 +55,7 @@ inline auto is_floating_point_like(std::string_view s) noexcept -> bool
 
   int dots = 0;
   for (auto c : s) {
-    if (std::isdigit(c)) {
+    if (c >= '0' && c <= '9') {
       continue;
     }
     if (c == '.') {
@@ -75,8 +77,11 @@ inline auto from_string_impl<float>(std::string_view s) noexcept
     return unexpected { make_error_code(std::errc::invalid_argument) };
   }
 
+  // the text ends with s, and errno may be left from something else
+  const auto text = std::string(s);
   char* end {};
-  float value = std::strtof(s.data(), &end);
+  errno = 0;
+  float value = std::strtof(text.c_str(), &end);
 
   if (errno == ERANGE) {
     return unexpected { make_error_code(std::errc::result_out_of_range) };
@@ -93,8 +98,11 @@ inline auto from_string_impl<double>(std::string_view s) noexcept
     return unexpected { make_error_code(std::errc::invalid_argument) };
   }
 
+  // the text ends with s, and errno may be left from something else
+  const auto text = std::string(s);
   char* end {};
-  double value = std::strtod(s.data(), &end);
+  errno = 0;
+  double value = std::strtod(text.c_str(), &end);
 
   if (errno == ERANGE) {
     return unexpected { make_error_code(std::errc::result_out_of_range) };
@@ -111,8 +119,11 @@ inline auto from_string_impl<long double>(std::string_view s) noexcept
     return unexpected { make_error_code(std::errc::invalid_argument) };
   }
 
+  // the text ends with s, and errno may be left from something else
+  const auto text = std::string(s);
   char* end {};
-  long double value = std::strtold(s.data(), &end);
+  errno = 0;
+  long double value = std::strtold(text.c_str(), &end);
 
   if (errno == ERANGE) {
     return unexpected { make_error_code(std::errc::result_out_of_range) };
-- 
2.43.0

