From 7b1840d3592a6b1d439f0a23876225582459fb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:58:57 +0000
Subject: [PATCH 01/10] fix: keep the value of a narrow-width scalar in the
 non-native byte order

A scalar declared narrower than its type (u32 in 2_B) was byteswapped as a
whole type: the read delivered 0x12340000 for the bytes 12 34 and the write
emitted the padding instead of the value, silently losing data, derived
lengths and magic numbers in the foreign byte order.
---
 include/field_read/read_impl.hpp   |  2 +-
 include/field_write/write_impl.hpp |  2 +-
 include/stream/byte_order.hpp      | 37 +++++++++++++++++++++++++++
 single_header/s2s.hpp              | 41 ++++++++++++++++++++++++++++--
 4 files changed, 78 insertions(+), 4 deletions(-)

diff --git a/include/field_read/read_impl.hpp b/include/field_read/read_impl.hpp
index 9e38ec8..0e85fa8 100644
--- a/include/field_read/read_impl.hpp
+++ b/include/field_read/read_impl.hpp
@@ -98,7 +98,7 @@ constexpr auto read_foreign_scalar(stream& s, T& obj, std::size_t size_to_read)
   auto res = read_native_impl(s, obj, size_to_read);
   if(res) {
     // todo rollout byteswap if freestanding compiler doesnt provide one
-    obj = std::byteswap(obj);
+    obj = foreign_to_host(obj, size_to_read);
     return {};
   }
   return res;
diff --git a/include/field_write/write_impl.hpp b/include/field_write/write_impl.hpp
index 0d7c730..a356d63 100644
--- a/include/field_write/write_impl.hpp
+++ b/include/field_write/write_impl.hpp
@@ -54,7 +54,7 @@ template <trivial T, output_stream_like stream>
 constexpr auto write_foreign_scalar(stream& s, const T& obj, std::size_t size_to_write) -> rw_result {
   // The source is const and belongs to the caller, so the swap lands in a
   // stack temporary rather than mutating it in place as the read path does.
-  T swapped = std::byteswap(obj);
+  T swapped = host_to_foreign(obj, size_to_write);
   return write_native_impl(s, swapped, size_to_write);
 }
 
diff --git a/include/stream/byte_order.hpp b/include/stream/byte_order.hpp
index a2357e1..c2f6288 100644
--- a/include/stream/byte_order.hpp
+++ b/include/stream/byte_order.hpp
@@ -3,6 +3,8 @@
 
 
 #include <bit>
+#include <cstddef>
+#include <type_traits>
 
 #include "../lib/s2s_traits/type_traits.hpp"
 
@@ -38,6 +40,41 @@ constexpr cast_endianness deduce_byte_order() {
   else if constexpr(std::endian::native != endianness)
     return cast_endianness::foreign;
 }
+
+
+// A scalar declared narrower than its type carries its value in the low-order
+// bytes, and swapping the whole type exchanges those with the padding. On a
+// little-endian host the wire bytes occupy the first `width` bytes in memory,
+// so one shift next to the swap keeps the value and its bytes together.
+template <typename T>
+constexpr auto narrow_padding_bits(std::size_t width) -> std::size_t {
+  if constexpr(std::endian::native == std::endian::little)
+    return (width == 0 || width >= sizeof(T)) ? 0 : (sizeof(T) - width) * 8;
+  else
+    return 0;
+}
+
+template <trivial T>
+constexpr auto foreign_to_host(T raw, std::size_t width) -> T {
+  T swapped = std::byteswap(raw);
+  if constexpr(sizeof(T) > 1) {
+    using bits = std::make_unsigned_t<T>;
+    return static_cast<T>(static_cast<bits>(swapped) >> narrow_padding_bits<T>(width));
+  } else {
+    return swapped;
+  }
+}
+
+template <trivial T>
+constexpr auto host_to_foreign(T value, std::size_t width) -> T {
+  if constexpr(sizeof(T) > 1) {
+    using bits = std::make_unsigned_t<T>;
+    return std::byteswap(
+      static_cast<T>(static_cast<bits>(value) << narrow_padding_bits<T>(width)));
+  } else {
+    return std::byteswap(value);
+  }
+}
 } /* namespace s2s */
 
 #endif // _BYTE_ORDER_HPP_
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index f92c679..8fda868 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -3874,6 +3874,8 @@ constexpr auto as_byte_buffer(const T& obj) -> std::array<char, size> {
 #ifndef _BYTE_ORDER_HPP_
 #define _BYTE_ORDER_HPP_
  
+ 
+ 
 namespace s2s {
 // Single-byte elements have no byte order, and fixed_string exposes no
 // iterators, so both fall through untouched. Shared by the read and write
@@ -3905,6 +3907,41 @@ constexpr cast_endianness deduce_byte_order() {
   else if constexpr(std::endian::native != endianness)
     return cast_endianness::foreign;
 }
+
+
+// A scalar declared narrower than its type carries its value in the low-order
+// bytes, and swapping the whole type exchanges those with the padding. On a
+// little-endian host the wire bytes occupy the first `width` bytes in memory,
+// so one shift next to the swap keeps the value and its bytes together.
+template <typename T>
+constexpr auto narrow_padding_bits(std::size_t width) -> std::size_t {
+  if constexpr(std::endian::native == std::endian::little)
+    return (width == 0 || width >= sizeof(T)) ? 0 : (sizeof(T) - width) * 8;
+  else
+    return 0;
+}
+
+template <trivial T>
+constexpr auto foreign_to_host(T raw, std::size_t width) -> T {
+  T swapped = std::byteswap(raw);
+  if constexpr(sizeof(T) > 1) {
+    using bits = std::make_unsigned_t<T>;
+    return static_cast<T>(static_cast<bits>(swapped) >> narrow_padding_bits<T>(width));
+  } else {
+    return swapped;
+  }
+}
+
+template <trivial T>
+constexpr auto host_to_foreign(T value, std::size_t width) -> T {
+  if constexpr(sizeof(T) > 1) {
+    using bits = std::make_unsigned_t<T>;
+    return std::byteswap(
+      static_cast<T>(static_cast<bits>(value) << narrow_padding_bits<T>(width)));
+  } else {
+    return std::byteswap(value);
+  }
+}
 } /* namespace s2s */
 
 #endif // _BYTE_ORDER_HPP_
@@ -4002,7 +4039,7 @@ constexpr auto read_foreign_scalar(stream& s, T& obj, std::size_t size_to_read)
   auto res = read_native_impl(s, obj, size_to_read);
   if(res) {
     // todo rollout byteswap if freestanding compiler doesnt provide one
-    obj = std::byteswap(obj);
+    obj = foreign_to_host(obj, size_to_read);
     return {};
   }
   return res;
@@ -4787,7 +4824,7 @@ template <trivial T, output_stream_like stream>
 constexpr auto write_foreign_scalar(stream& s, const T& obj, std::size_t size_to_write) -> rw_result {
   // The source is const and belongs to the caller, so the swap lands in a
   // stack temporary rather than mutating it in place as the read path does.
-  T swapped = std::byteswap(obj);
+  T swapped = host_to_foreign(obj, size_to_write);
   return write_native_impl(s, swapped, size_to_write);
 }
 
-- 
2.43.0


From 77120fd2d748543a55c7fc4742dbdc3e6262eb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:59:15 +0000
Subject: [PATCH 02/10] fix: compare a fixed_string without reading past its
 storage

A string off the wire need not carry a terminator, but the comparison behind
magic_string, eq, neq and any_of looked for one with strlen and ran off the
end of the array: a hostile magic was a stack over-read. The search now stops
at the end of the storage.
---
 include/lib/containers/fixed_string.hpp | 9 ++++++---
 single_header/s2s.hpp                   | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/lib/containers/fixed_string.hpp b/include/lib/containers/fixed_string.hpp
index 59bd5a3..f50d947 100644
--- a/include/lib/containers/fixed_string.hpp
+++ b/include/lib/containers/fixed_string.hpp
@@ -19,8 +19,11 @@ struct fixed_string {
   constexpr const char* data() const { return value.data(); }
   constexpr char* data() { return value.data(); }
   constexpr std::size_t size() const { return N; }
-  constexpr auto to_sv() -> std::string_view const {
-    return std::string_view{data()};
+  // Bounded by the storage: bytes read off a stream need not carry a
+  // terminator, so looking for one must stop where the array does.
+  constexpr auto to_sv() const -> std::string_view {
+    const std::string_view whole{value.data(), N + 1};
+    return whole.substr(0, whole.find('\0'));
   }
 };
 
@@ -30,7 +33,7 @@ fixed_string(const char (&)[N]) -> fixed_string<N - 1>;
 template <std::size_t N1, std::size_t N2>
 constexpr bool operator==(fixed_string<N1> lhs, fixed_string<N2> rhs) {
   if constexpr(N1 != N2) return false;
-  return std::string_view{lhs.data()} == std::string_view{rhs.data()};
+  return lhs.to_sv() == rhs.to_sv();
 }
 
 template <std::size_t N1, std::size_t N2>
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index 8fda868..6589e5f 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -39,8 +39,11 @@ struct fixed_string {
   constexpr const char* data() const { return value.data(); }
   constexpr char* data() { return value.data(); }
   constexpr std::size_t size() const { return N; }
-  constexpr auto to_sv() -> std::string_view const {
-    return std::string_view{data()};
+  // Bounded by the storage: bytes read off a stream need not carry a
+  // terminator, so looking for one must stop where the array does.
+  constexpr auto to_sv() const -> std::string_view {
+    const std::string_view whole{value.data(), N + 1};
+    return whole.substr(0, whole.find('\0'));
   }
 };
 
@@ -50,7 +53,7 @@ fixed_string(const char (&)[N]) -> fixed_string<N - 1>;
 template <std::size_t N1, std::size_t N2>
 constexpr bool operator==(fixed_string<N1> lhs, fixed_string<N2> rhs) {
   if constexpr(N1 != N2) return false;
-  return std::string_view{lhs.data()} == std::string_view{rhs.data()};
+  return lhs.to_sv() == rhs.to_sv();
 }
 
 template <std::size_t N1, std::size_t N2>
-- 
2.43.0


From 7717917cea3972332fb2a1e039a0b47f0d4f45c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:59:18 +0000
Subject: [PATCH 03/10] fix: accept a max_bytes ceiling on a container inside
 maybe

The length dependencies of an optional were only defined for a field with the
default bound, so maybe<vec_field<..., max_bytes<N>>, ...> did not compile.
---
 include/field_list/field_list_metadata.hpp | 6 +++---
 single_header/s2s.hpp                      | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/field_list/field_list_metadata.hpp b/include/field_list/field_list_metadata.hpp
index aaf7f2d..ccaa2ab 100644
--- a/include/field_list/field_list_metadata.hpp
+++ b/include/field_list/field_list_metadata.hpp
@@ -75,13 +75,13 @@ struct extract_length_dependencies<
   static constexpr auto value = deps_of(size_type_of<size>::req_field_list);
 };
 
-template <fixed_string id, typename T, auto size, auto constraint, 
+template <fixed_string id, typename T, auto size, auto constraint, auto bound,
           typename present_only_if, typename optional>
 struct extract_length_dependencies<
-  maybe_field<field<id, T, size, constraint>, present_only_if, optional>
+  maybe_field<field<id, T, size, constraint, bound>, present_only_if, optional>
 >
 {
-  using f = field<id, T, size, constraint>;
+  using f = field<id, T, size, constraint, bound>;
   static constexpr auto value = extract_length_dependencies<f>::value;
 };
 
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index 6589e5f..e4043fd 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -2536,13 +2536,13 @@ struct extract_length_dependencies<
   static constexpr auto value = deps_of(size_type_of<size>::req_field_list);
 };
 
-template <fixed_string id, typename T, auto size, auto constraint, 
+template <fixed_string id, typename T, auto size, auto constraint, auto bound,
           typename present_only_if, typename optional>
 struct extract_length_dependencies<
-  maybe_field<field<id, T, size, constraint>, present_only_if, optional>
+  maybe_field<field<id, T, size, constraint, bound>, present_only_if, optional>
 >
 {
-  using f = field<id, T, size, constraint>;
+  using f = field<id, T, size, constraint, bound>;
   static constexpr auto value = extract_length_dependencies<f>::value;
 };
 
-- 
2.43.0


From e41c54dcf9ac8b07dfdcc4abc3e2df77f2114653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:59:22 +0000
Subject: [PATCH 04/10] fix: read a union whose discriminant is also a length
 target

Selecting the alternative went through operator[], which does not expose a
length target, so such a schema could be written but not read.
---
 include/type_deduction/type/type_impl.hpp | 4 +++-
 single_header/s2s.hpp                     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/type_deduction/type/type_impl.hpp b/include/type_deduction/type/type_impl.hpp
index 1ecf9a9..12ee68f 100644
--- a/include/type_deduction/type/type_impl.hpp
+++ b/include/type_deduction/type/type_impl.hpp
@@ -31,7 +31,9 @@ struct deduce_type<type<match_field<id>, _switch>> {
   template <auto metadata, typename... fields>
   constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl)
     -> std::expected<std::size_t, error_reason> const {
-    return evaluate_switch<_switch>{}(sfl[field_accessor<id>{}]); 
+    // Not operator[]: a discriminant that is also a length target is hidden
+    // from the user, but it is still on the wire and still selects the type.
+    return evaluate_switch<_switch>{}(field_value_of<field_accessor<id>>(sfl));
   }
 };
 
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index e4043fd..a295471 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -3716,7 +3716,9 @@ struct deduce_type<type<match_field<id>, _switch>> {
   template <auto metadata, typename... fields>
   constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl)
     -> std::expected<std::size_t, error_reason> const {
-    return evaluate_switch<_switch>{}(sfl[field_accessor<id>{}]); 
+    // Not operator[]: a discriminant that is also a length target is hidden
+    // from the user, but it is still on the wire and still selects the type.
+    return evaluate_switch<_switch>{}(field_value_of<field_accessor<id>>(sfl));
   }
 };
 
-- 
2.43.0


From b30b30c370f71bac7a2902477a8b49c4eb32922f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:59:49 +0000
Subject: [PATCH 05/10] fix: write a union whose match_case value is negative

A negative case value read fine but could never be written: the width check
counted the bits of its unsigned image and rejected every one of them with
validation_failure.
---
 include/field_write/derived_value.hpp | 5 ++++-
 single_header/s2s.hpp                 | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/field_write/derived_value.hpp b/include/field_write/derived_value.hpp
index 406cc8c..8538c3d 100644
--- a/include/field_write/derived_value.hpp
+++ b/include/field_write/derived_value.hpp
@@ -297,7 +297,10 @@ private:
   static constexpr auto declared_width = deduce_field_size<target::field_size>{}();
 
   static constexpr auto fits_declared_width(std::size_t v) -> bool {
-    if constexpr(declared_width < sizeof(std::size_t)) {
+    // Only a slot narrower than its type needs its bits counted; the cast
+    // below settles the rest, and unlike a bit count it also holds for the
+    // negative value of a signed discriminant.
+    if constexpr(declared_width < sizeof(field_type)) {
       if((v >> (declared_width * 8)) != 0)
         return false;
     }
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index a295471..a134ef5 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -4768,7 +4768,10 @@ private:
   static constexpr auto declared_width = deduce_field_size<target::field_size>{}();
 
   static constexpr auto fits_declared_width(std::size_t v) -> bool {
-    if constexpr(declared_width < sizeof(std::size_t)) {
+    // Only a slot narrower than its type needs its bits counted; the cast
+    // below settles the rest, and unlike a bit count it also holds for the
+    // negative value of a signed discriminant.
+    if constexpr(declared_width < sizeof(field_type)) {
       if((v >> (declared_width * 8)) != 0)
         return false;
     }
-- 
2.43.0


From 97368cf2ec91c8fd65deb0659c7b48a81b703421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:00:39 +0000
Subject: [PATCH 06/10] fix: reject a verified length that its declared width
 cannot hold

A length slot whose container sits in an optional or a union alternative was
checked against the container but not against its own declared width, so
65539 elements behind a two-byte slot were written with a length of 3.
---
 include/field_write/derived_value.hpp | 37 ++++++++++++------------
 include/field_write/field_writer.hpp  |  4 +++
 single_header/s2s.hpp                 | 41 +++++++++++++++------------
 3 files changed, 46 insertions(+), 36 deletions(-)

diff --git a/include/field_write/derived_value.hpp b/include/field_write/derived_value.hpp
index 8538c3d..4a813e2 100644
--- a/include/field_write/derived_value.hpp
+++ b/include/field_write/derived_value.hpp
@@ -248,6 +248,24 @@ template <typename target, typename F>
 inline constexpr bool is_frozen_target_v = is_frozen_target<target, F>::value;
 
 
+// The declared width, not sizeof(field_type): a u32 slot declared
+// 2_B puts two bytes on the wire, and a length needing
+// three must fail rather than reach the stream truncated.
+template <typename target>
+constexpr auto fits_declared_width(std::size_t v) -> bool {
+  using field_type = typename target::field_type;
+  constexpr auto declared_width = deduce_field_size<target::field_size>{}();
+  // Only a slot narrower than its type needs its bits counted; the cast
+  // below settles the rest, and unlike a bit count it also holds for the
+  // negative value of a signed discriminant.
+  if constexpr(declared_width < sizeof(field_type)) {
+    if((v >> (declared_width * 8)) != 0)
+      return false;
+  }
+  return static_cast<std::size_t>(static_cast<field_type>(v)) == v;
+}
+
+
 template <typename target, typename F>
 struct derive_value;
 
@@ -285,27 +303,10 @@ struct derive_value<target, struct_field_list_impl<metadata, fields...>> {
     // agree on a value the declared slot cannot hold.
     if(!agreed)
       return std::unexpected(error_reason::found_contradicting_length);
-    if(!fits_declared_width(derived))
+    if(!fits_declared_width<target>(derived))
       return std::unexpected(error_reason::validation_failure);
     return static_cast<field_type>(derived);
   }
-
-private:
-  // The declared width, not sizeof(field_type): a u32 slot declared
-  // 2_B puts two bytes on the wire, and a length needing
-  // three must fail rather than reach the stream truncated.
-  static constexpr auto declared_width = deduce_field_size<target::field_size>{}();
-
-  static constexpr auto fits_declared_width(std::size_t v) -> bool {
-    // Only a slot narrower than its type needs its bits counted; the cast
-    // below settles the rest, and unlike a bit count it also holds for the
-    // negative value of a signed discriminant.
-    if constexpr(declared_width < sizeof(field_type)) {
-      if((v >> (declared_width * 8)) != 0)
-        return false;
-    }
-    return static_cast<std::size_t>(static_cast<field_type>(v)) == v;
-  }
 };
 } /* namespace s2s */
 
diff --git a/include/field_write/field_writer.hpp b/include/field_write/field_writer.hpp
index b3cdd27..836b3de 100644
--- a/include/field_write/field_writer.hpp
+++ b/include/field_write/field_writer.hpp
@@ -67,6 +67,10 @@ private:
       auto res = verify_conditional_len<T, F>{}(field_list, static_cast<std::size_t>(v));
       if(!res)
         return res;
+      // A verified length is held to its declared width like a derived one:
+      // agreeing with the container is no use once the slot has cut it short.
+      if(!fits_declared_width<T>(static_cast<std::size_t>(v)))
+        return std::unexpected(error_reason::validation_failure);
     }
     return write_impl<endianness>(s, v, size_to_write);
   }
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index a134ef5..e98fbd1 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -4719,6 +4719,24 @@ template <typename target, typename F>
 inline constexpr bool is_frozen_target_v = is_frozen_target<target, F>::value;
 
 
+// The declared width, not sizeof(field_type): a u32 slot declared
+// 2_B puts two bytes on the wire, and a length needing
+// three must fail rather than reach the stream truncated.
+template <typename target>
+constexpr auto fits_declared_width(std::size_t v) -> bool {
+  using field_type = typename target::field_type;
+  constexpr auto declared_width = deduce_field_size<target::field_size>{}();
+  // Only a slot narrower than its type needs its bits counted; the cast
+  // below settles the rest, and unlike a bit count it also holds for the
+  // negative value of a signed discriminant.
+  if constexpr(declared_width < sizeof(field_type)) {
+    if((v >> (declared_width * 8)) != 0)
+      return false;
+  }
+  return static_cast<std::size_t>(static_cast<field_type>(v)) == v;
+}
+
+
 template <typename target, typename F>
 struct derive_value;
 
@@ -4756,27 +4774,10 @@ struct derive_value<target, struct_field_list_impl<metadata, fields...>> {
     // agree on a value the declared slot cannot hold.
     if(!agreed)
       return std::unexpected(error_reason::found_contradicting_length);
-    if(!fits_declared_width(derived))
+    if(!fits_declared_width<target>(derived))
       return std::unexpected(error_reason::validation_failure);
     return static_cast<field_type>(derived);
   }
-
-private:
-  // The declared width, not sizeof(field_type): a u32 slot declared
-  // 2_B puts two bytes on the wire, and a length needing
-  // three must fail rather than reach the stream truncated.
-  static constexpr auto declared_width = deduce_field_size<target::field_size>{}();
-
-  static constexpr auto fits_declared_width(std::size_t v) -> bool {
-    // Only a slot narrower than its type needs its bits counted; the cast
-    // below settles the rest, and unlike a bit count it also holds for the
-    // negative value of a signed discriminant.
-    if constexpr(declared_width < sizeof(field_type)) {
-      if((v >> (declared_width * 8)) != 0)
-        return false;
-    }
-    return static_cast<std::size_t>(static_cast<field_type>(v)) == v;
-  }
 };
 } /* namespace s2s */
 
@@ -4938,6 +4939,10 @@ private:
       auto res = verify_conditional_len<T, F>{}(field_list, static_cast<std::size_t>(v));
       if(!res)
         return res;
+      // A verified length is held to its declared width like a derived one:
+      // agreeing with the container is no use once the slot has cut it short.
+      if(!fits_declared_width<T>(static_cast<std::size_t>(v)))
+        return std::unexpected(error_reason::validation_failure);
     }
     return write_impl<endianness>(s, v, size_to_write);
   }
-- 
2.43.0


From 50dd067ecb6a6e851430fe4b2f56745f21f55d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:01:08 +0000
Subject: [PATCH 07/10] fix: judge computed sizes, presence and alternatives by
 what is written

A parse_if predicate, a len_from_fields callable or a branch that names a
derived or frozen field was evaluated on the stored slot, which the write
ignores. On a struct that was built or edited rather than parsed, a
consistent struct was refused and an inconsistent one was written as a stream
that does not read back.
---
 .../computation_from_fields_impl.hpp          |  22 +++-
 include/field_size/field_size_deduce.hpp      |   9 +-
 include/field_write/derived_value.hpp         |  34 +++++-
 include/field_write/field_writer.hpp          |   8 +-
 .../if_else_ladder/ladder_impl.hpp            |  18 +--
 include/type_deduction/type/type_impl.hpp     |  12 +-
 single_header/s2s.hpp                         | 103 ++++++++++++++----
 7 files changed, 158 insertions(+), 48 deletions(-)

diff --git a/include/field_compute/computation_from_fields_impl.hpp b/include/field_compute/computation_from_fields_impl.hpp
index 138970d..5804893 100644
--- a/include/field_compute/computation_from_fields_impl.hpp
+++ b/include/field_compute/computation_from_fields_impl.hpp
@@ -44,6 +44,19 @@ concept can_eval_R_from_fields =
   >::res;
 
 
+// Which value of a named field a computation is handed. Reading, every field
+// holds what came off the wire; the write path passes its own answer, since
+// there some fields do not hold what they put on the wire.
+struct stored_values {
+  template <typename field_accessor, auto metadata, typename... fields>
+  static constexpr auto value_of(const struct_field_list_impl<metadata, fields...>& flist)
+    -> decltype(auto)
+  {
+    return (field_value_of<field_accessor>(flist));
+  }
+};
+
+
 // template <auto callable, typename R, field_name_list Fs>
 template <typename T>
 struct compute_impl;
@@ -51,14 +64,17 @@ struct compute_impl;
 // todo: static_vector over fixed_string list?
 template <auto callable, typename R, fixed_string... req_fields>
 struct compute_impl<compute_t<callable, R, fixed_string_list<req_fields...>>>{
-  template <auto metadata, typename... fields>
+  template <auto metadata, typename... fields, typename values = stored_values>
     requires (can_eval_R_from_fields<
                 callable, 
                 R,
                 struct_field_list_impl<metadata, fields...>,
                 fixed_string_list<req_fields...>>)
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& flist) const -> R {
-    return callable(field_value_of<field_accessor<req_fields>>(flist)...);
+  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& flist, values = {}) const -> R {
+    // Through const references either way, so a callable cannot tell a stored
+    // value from one worked out on the spot.
+    return [](const auto&... args) -> R { return callable(args...); }(
+      values::template value_of<field_accessor<req_fields>>(flist)...);
   }
 };
 } /* namespace s2s */
diff --git a/include/field_size/field_size_deduce.hpp b/include/field_size/field_size_deduce.hpp
index e211532..461640a 100644
--- a/include/field_size/field_size_deduce.hpp
+++ b/include/field_size/field_size_deduce.hpp
@@ -31,9 +31,12 @@ struct deduce_field_size<size> {
   using field_size_type =
     compute_t<size_type_of<size>::f, std::size_t, std::remove_cvref_t<decltype(size_type_of<size>::req_field_list)>>;
 
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& struct_fields) const -> std::size_t {
-    return compute_impl<field_size_type>{}(struct_fields);
+  template <auto metadata, typename... fields, typename values = stored_values>
+  constexpr auto operator()(
+    const struct_field_list_impl<metadata, fields...>& struct_fields, values which = {}) const
+    -> std::size_t
+  {
+    return compute_impl<field_size_type>{}(struct_fields, which);
   }
 };
 } /* namespace s2s */
diff --git a/include/field_write/derived_value.hpp b/include/field_write/derived_value.hpp
index 4a813e2..513a105 100644
--- a/include/field_write/derived_value.hpp
+++ b/include/field_write/derived_value.hpp
@@ -150,6 +150,16 @@ struct union_len_obligation_of<union_field<id, type_deducer, constraint_on_varia
 };
 
 
+// What a field puts on the wire. A derived or frozen field ignores its stored
+// slot, so a computation naming one has to be handed the value that is written
+// in its place: the reader will conclude everything from that one.
+struct written_values {
+  template <typename field_accessor, auto metadata, typename... fields>
+  static constexpr auto value_of(const struct_field_list_impl<metadata, fields...>& field_list)
+    -> decltype(auto);
+};
+
+
 template <typename target, typename F>
 struct has_conditional_len_obligation {
   static constexpr bool value = false;
@@ -188,7 +198,7 @@ struct verify_conditional_len<target, struct_field_list_impl<metadata, fields...
       if constexpr(conditionally_obligates<fields, target>()) {
         const auto is_active =
           producer.value.has_value() &&
-          compute_impl<typename fields::field_presence_checker>{}(field_list);
+          compute_impl<typename fields::field_presence_checker>{}(field_list, written_values{});
         if(is_active && producer.value->size() != value_on_the_wire)
           agreed = false;
       } else if constexpr(union_len_obligation_of<fields, target>::present) {
@@ -308,6 +318,28 @@ struct derive_value<target, struct_field_list_impl<metadata, fields...>> {
     return static_cast<field_type>(derived);
   }
 };
+
+
+template <typename field_accessor, auto metadata, typename... fields>
+constexpr auto written_values::value_of(
+  const struct_field_list_impl<metadata, fields...>& field_list) -> decltype(auto)
+{
+  using S = struct_field_list_impl<metadata, fields...>;
+  constexpr auto field_lookup_res = lookup_field<metadata>(as_sv(field_accessor::field_id));
+  static_assert(field_lookup_res.has_value, "no such field in this field list");
+  using target = meta::type_of<field_lookup_res->id>;
+
+  if constexpr(is_derived_target_v<target, S>) {
+    // A derivation that fails is reported at the field it belongs to, so the
+    // stored slot is as good an answer as any for the write about to fail.
+    return derive_value<target, S>{}(field_list)
+      .value_or(static_cast<const target&>(field_list).value);
+  } else if constexpr(is_frozen_target_v<target, S>) {
+    return (frozen_value_of<target>);
+  } else {
+    return (static_cast<const target&>(field_list).value);
+  }
+}
 } /* namespace s2s */
 
 #endif // _DERIVED_VALUE_HPP_
diff --git a/include/field_write/field_writer.hpp b/include/field_write/field_writer.hpp
index 836b3de..f0e0044 100644
--- a/include/field_write/field_writer.hpp
+++ b/include/field_write/field_writer.hpp
@@ -91,7 +91,7 @@ struct write_field<T, F> {
       // An arbitrary N-ary callable has no inverse, so its source fields stay
       // ordinary data and the size they imply can only be checked against the
       // container, never used to repair it.
-      if(deduce_field_size<field_size>{}(field_list) != value.size())
+      if(deduce_field_size<field_size>{}(field_list, written_values{}) != value.size())
         return std::unexpected(error_reason::found_contradicting_length);
     }
     // For a len_from_field size there is nothing to check: the length slot was
@@ -169,7 +169,7 @@ struct write_field<T, F> {
     constexpr auto field_size = T::field_size;
 
     if constexpr(is_computed_size_v<size_type_of<field_size>>) {
-      if(deduce_field_size<field_size>{}(field_list) != value.size())
+      if(deduce_field_size<field_size>{}(field_list, written_values{}) != value.size())
         return std::unexpected(error_reason::found_contradicting_length);
     }
     for(const auto& record: value) {
@@ -195,7 +195,7 @@ struct write_field<T, F> {
     // nothing to derive here — only to check that the struct agrees with what
     // the reader will conclude from the very same sibling bytes.
     const auto should_be_present =
-      compute_impl<typename T::field_presence_checker>{}(field_list);
+      compute_impl<typename T::field_presence_checker>{}(field_list, written_values{});
     if(should_be_present != value.has_value())
       return std::unexpected(error_reason::validation_failure);
     if(!should_be_present)
@@ -272,7 +272,7 @@ struct write_field<T, F> {
     // alternative can only be checked against what the reader will conclude
     // from the same sibling bytes.
     if constexpr(!discriminant_obligation<T>::present) {
-      auto deduced = deduce_type<guide>{}(field_list);
+      auto deduced = deduce_type<guide>{}(field_list, written_values{});
       if(!deduced)
         return std::unexpected(deduced.error());
       if(*deduced != value.index())
diff --git a/include/type_deduction/if_else_ladder/ladder_impl.hpp b/include/type_deduction/if_else_ladder/ladder_impl.hpp
index 00b66c3..681a7aa 100644
--- a/include/type_deduction/if_else_ladder/ladder_impl.hpp
+++ b/include/type_deduction/if_else_ladder/ladder_impl.hpp
@@ -18,11 +18,12 @@ struct evalaute_ladder_impl;
 
 template <std::size_t idx, typename branch>
 struct evalaute_ladder_impl {
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& field_list) const -> 
+  template <auto metadata, typename... fields, typename values>
+  constexpr auto operator()(
+    const struct_field_list_impl<metadata, fields...>& field_list, values which) const -> 
     type_deduction_idx
   {
-    if(compute_impl<typename branch::expression>{}(field_list)) 
+    if(compute_impl<typename branch::expression>{}(field_list, which)) 
       return idx;
     return std::nullopt;
   }
@@ -30,9 +31,10 @@ struct evalaute_ladder_impl {
 
 template <typename... branches>
 struct evaluate_ladder_helper {
-  template <auto metadata, typename... fields, std::size_t... idx>
+  template <auto metadata, typename... fields, typename values, std::size_t... idx>
   constexpr auto operator()(
     const struct_field_list_impl<metadata, fields...>& field_list, 
+    values which,
     const std::index_sequence<idx...>&) const 
   -> type_deduction_idx
   {
@@ -40,7 +42,7 @@ struct evaluate_ladder_helper {
     return (
       pipeline_seed |
       ... |
-      [&]() { return evalaute_ladder_impl<idx, branches>{}(field_list); }
+      [&]() { return evalaute_ladder_impl<idx, branches>{}(field_list, which); }
     );
   }
 };
@@ -48,12 +50,14 @@ struct evaluate_ladder_helper {
 
 template <typename... branches>
 struct evaluate_ladder<type_if_else<branches...>> {
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& field_list) const -> 
+  template <auto metadata, typename... fields, typename values = stored_values>
+  constexpr auto operator()(
+    const struct_field_list_impl<metadata, fields...>& field_list, values which = {}) const -> 
     type_deduction_res
   {
     auto res = evaluate_ladder_helper<branches...>{}(
       field_list,
+      which,
       std::make_index_sequence<sizeof...(branches)>{}
     );
     if(!res)
diff --git a/include/type_deduction/type/type_impl.hpp b/include/type_deduction/type/type_impl.hpp
index 12ee68f..b73161f 100644
--- a/include/type_deduction/type/type_impl.hpp
+++ b/include/type_deduction/type/type_impl.hpp
@@ -19,10 +19,10 @@ struct deduce_type;
 // todo constraints compute like
 template <typename eval_expression, typename _switch>
 struct deduce_type<type<eval_expression, _switch>> {
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl)
+  template <auto metadata, typename... fields, typename values = stored_values>
+  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl, values which = {})
     -> std::expected<std::size_t, error_reason> const {
-    return evaluate_switch<_switch>{}(compute_impl<eval_expression>{}(sfl)); 
+    return evaluate_switch<_switch>{}(compute_impl<eval_expression>{}(sfl, which)); 
   }
 };
 
@@ -40,10 +40,10 @@ struct deduce_type<type<match_field<id>, _switch>> {
 // todo constraints
 template <typename ladder>
 struct deduce_type<type<ladder>> {
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl)
+  template <auto metadata, typename... fields, typename values = stored_values>
+  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl, values which = {})
     -> std::expected<std::size_t, error_reason> const {
-    return evaluate_ladder<ladder>{}(sfl);
+    return evaluate_ladder<ladder>{}(sfl, which);
   }
 };
 } /* namespace s2s */
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index e98fbd1..09c97d8 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -3028,6 +3028,19 @@ concept can_eval_R_from_fields =
   >::res;
 
 
+// Which value of a named field a computation is handed. Reading, every field
+// holds what came off the wire; the write path passes its own answer, since
+// there some fields do not hold what they put on the wire.
+struct stored_values {
+  template <typename field_accessor, auto metadata, typename... fields>
+  static constexpr auto value_of(const struct_field_list_impl<metadata, fields...>& flist)
+    -> decltype(auto)
+  {
+    return (field_value_of<field_accessor>(flist));
+  }
+};
+
+
 // template <auto callable, typename R, field_name_list Fs>
 template <typename T>
 struct compute_impl;
@@ -3035,14 +3048,17 @@ struct compute_impl;
 // todo: static_vector over fixed_string list?
 template <auto callable, typename R, fixed_string... req_fields>
 struct compute_impl<compute_t<callable, R, fixed_string_list<req_fields...>>>{
-  template <auto metadata, typename... fields>
+  template <auto metadata, typename... fields, typename values = stored_values>
     requires (can_eval_R_from_fields<
                 callable, 
                 R,
                 struct_field_list_impl<metadata, fields...>,
                 fixed_string_list<req_fields...>>)
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& flist) const -> R {
-    return callable(field_value_of<field_accessor<req_fields>>(flist)...);
+  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& flist, values = {}) const -> R {
+    // Through const references either way, so a callable cannot tell a stored
+    // value from one worked out on the spot.
+    return [](const auto&... args) -> R { return callable(args...); }(
+      values::template value_of<field_accessor<req_fields>>(flist)...);
   }
 };
 } /* namespace s2s */
@@ -3081,9 +3097,12 @@ struct deduce_field_size<size> {
   using field_size_type =
     compute_t<size_type_of<size>::f, std::size_t, std::remove_cvref_t<decltype(size_type_of<size>::req_field_list)>>;
 
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& struct_fields) const -> std::size_t {
-    return compute_impl<field_size_type>{}(struct_fields);
+  template <auto metadata, typename... fields, typename values = stored_values>
+  constexpr auto operator()(
+    const struct_field_list_impl<metadata, fields...>& struct_fields, values which = {}) const
+    -> std::size_t
+  {
+    return compute_impl<field_size_type>{}(struct_fields, which);
   }
 };
 } /* namespace s2s */
@@ -3589,11 +3608,12 @@ struct evalaute_ladder_impl;
 
 template <std::size_t idx, typename branch>
 struct evalaute_ladder_impl {
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& field_list) const -> 
+  template <auto metadata, typename... fields, typename values>
+  constexpr auto operator()(
+    const struct_field_list_impl<metadata, fields...>& field_list, values which) const -> 
     type_deduction_idx
   {
-    if(compute_impl<typename branch::expression>{}(field_list)) 
+    if(compute_impl<typename branch::expression>{}(field_list, which)) 
       return idx;
     return std::nullopt;
   }
@@ -3601,9 +3621,10 @@ struct evalaute_ladder_impl {
 
 template <typename... branches>
 struct evaluate_ladder_helper {
-  template <auto metadata, typename... fields, std::size_t... idx>
+  template <auto metadata, typename... fields, typename values, std::size_t... idx>
   constexpr auto operator()(
     const struct_field_list_impl<metadata, fields...>& field_list, 
+    values which,
     const std::index_sequence<idx...>&) const 
   -> type_deduction_idx
   {
@@ -3611,7 +3632,7 @@ struct evaluate_ladder_helper {
     return (
       pipeline_seed |
       ... |
-      [&]() { return evalaute_ladder_impl<idx, branches>{}(field_list); }
+      [&]() { return evalaute_ladder_impl<idx, branches>{}(field_list, which); }
     );
   }
 };
@@ -3619,12 +3640,14 @@ struct evaluate_ladder_helper {
 
 template <typename... branches>
 struct evaluate_ladder<type_if_else<branches...>> {
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& field_list) const -> 
+  template <auto metadata, typename... fields, typename values = stored_values>
+  constexpr auto operator()(
+    const struct_field_list_impl<metadata, fields...>& field_list, values which = {}) const -> 
     type_deduction_res
   {
     auto res = evaluate_ladder_helper<branches...>{}(
       field_list,
+      which,
       std::make_index_sequence<sizeof...(branches)>{}
     );
     if(!res)
@@ -3704,10 +3727,10 @@ struct deduce_type;
 // todo constraints compute like
 template <typename eval_expression, typename _switch>
 struct deduce_type<type<eval_expression, _switch>> {
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl)
+  template <auto metadata, typename... fields, typename values = stored_values>
+  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl, values which = {})
     -> std::expected<std::size_t, error_reason> const {
-    return evaluate_switch<_switch>{}(compute_impl<eval_expression>{}(sfl)); 
+    return evaluate_switch<_switch>{}(compute_impl<eval_expression>{}(sfl, which)); 
   }
 };
 
@@ -3725,10 +3748,10 @@ struct deduce_type<type<match_field<id>, _switch>> {
 // todo constraints
 template <typename ladder>
 struct deduce_type<type<ladder>> {
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl)
+  template <auto metadata, typename... fields, typename values = stored_values>
+  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl, values which = {})
     -> std::expected<std::size_t, error_reason> const {
-    return evaluate_ladder<ladder>{}(sfl);
+    return evaluate_ladder<ladder>{}(sfl, which);
   }
 };
 } /* namespace s2s */
@@ -4621,6 +4644,16 @@ struct union_len_obligation_of<union_field<id, type_deducer, constraint_on_varia
 };
 
 
+// What a field puts on the wire. A derived or frozen field ignores its stored
+// slot, so a computation naming one has to be handed the value that is written
+// in its place: the reader will conclude everything from that one.
+struct written_values {
+  template <typename field_accessor, auto metadata, typename... fields>
+  static constexpr auto value_of(const struct_field_list_impl<metadata, fields...>& field_list)
+    -> decltype(auto);
+};
+
+
 template <typename target, typename F>
 struct has_conditional_len_obligation {
   static constexpr bool value = false;
@@ -4659,7 +4692,7 @@ struct verify_conditional_len<target, struct_field_list_impl<metadata, fields...
       if constexpr(conditionally_obligates<fields, target>()) {
         const auto is_active =
           producer.value.has_value() &&
-          compute_impl<typename fields::field_presence_checker>{}(field_list);
+          compute_impl<typename fields::field_presence_checker>{}(field_list, written_values{});
         if(is_active && producer.value->size() != value_on_the_wire)
           agreed = false;
       } else if constexpr(union_len_obligation_of<fields, target>::present) {
@@ -4779,6 +4812,28 @@ struct derive_value<target, struct_field_list_impl<metadata, fields...>> {
     return static_cast<field_type>(derived);
   }
 };
+
+
+template <typename field_accessor, auto metadata, typename... fields>
+constexpr auto written_values::value_of(
+  const struct_field_list_impl<metadata, fields...>& field_list) -> decltype(auto)
+{
+  using S = struct_field_list_impl<metadata, fields...>;
+  constexpr auto field_lookup_res = lookup_field<metadata>(as_sv(field_accessor::field_id));
+  static_assert(field_lookup_res.has_value, "no such field in this field list");
+  using target = meta::type_of<field_lookup_res->id>;
+
+  if constexpr(is_derived_target_v<target, S>) {
+    // A derivation that fails is reported at the field it belongs to, so the
+    // stored slot is as good an answer as any for the write about to fail.
+    return derive_value<target, S>{}(field_list)
+      .value_or(static_cast<const target&>(field_list).value);
+  } else if constexpr(is_frozen_target_v<target, S>) {
+    return (frozen_value_of<target>);
+  } else {
+    return (static_cast<const target&>(field_list).value);
+  }
+}
 } /* namespace s2s */
 
 #endif // _DERIVED_VALUE_HPP_
@@ -4963,7 +5018,7 @@ struct write_field<T, F> {
       // An arbitrary N-ary callable has no inverse, so its source fields stay
       // ordinary data and the size they imply can only be checked against the
       // container, never used to repair it.
-      if(deduce_field_size<field_size>{}(field_list) != value.size())
+      if(deduce_field_size<field_size>{}(field_list, written_values{}) != value.size())
         return std::unexpected(error_reason::found_contradicting_length);
     }
     // For a len_from_field size there is nothing to check: the length slot was
@@ -5041,7 +5096,7 @@ struct write_field<T, F> {
     constexpr auto field_size = T::field_size;
 
     if constexpr(is_computed_size_v<size_type_of<field_size>>) {
-      if(deduce_field_size<field_size>{}(field_list) != value.size())
+      if(deduce_field_size<field_size>{}(field_list, written_values{}) != value.size())
         return std::unexpected(error_reason::found_contradicting_length);
     }
     for(const auto& record: value) {
@@ -5067,7 +5122,7 @@ struct write_field<T, F> {
     // nothing to derive here — only to check that the struct agrees with what
     // the reader will conclude from the very same sibling bytes.
     const auto should_be_present =
-      compute_impl<typename T::field_presence_checker>{}(field_list);
+      compute_impl<typename T::field_presence_checker>{}(field_list, written_values{});
     if(should_be_present != value.has_value())
       return std::unexpected(error_reason::validation_failure);
     if(!should_be_present)
@@ -5144,7 +5199,7 @@ struct write_field<T, F> {
     // alternative can only be checked against what the reader will conclude
     // from the same sibling bytes.
     if constexpr(!discriminant_obligation<T>::present) {
-      auto deduced = deduce_type<guide>{}(field_list);
+      auto deduced = deduce_type<guide>{}(field_list, written_values{});
       if(!deduced)
         return std::unexpected(deduced.error());
       if(*deduced != value.index())
-- 
2.43.0


From a0e8a5aff4b7ebcb569a600ef4e73ee0f418f3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:04 +0000
Subject: [PATCH 08/10] fix: hand over what was read instead of copying it

struct_cast copied the decoded struct into its result, and nested structs and
optionals into their slots. Each copy allocates, and an allocation failing
inside the copy of a union whose alternatives are containers is undefined
behaviour in libstdc++ (the half-made variant is destroyed through an index it
never had), so running out of memory crashed the reader instead of raising
std::bad_alloc. Moving allocates nothing.
---
 include/cast/struct_cast_impl.hpp   | 3 ++-
 include/field_read/field_reader.hpp | 4 ++--
 single_header/s2s.hpp               | 7 ++++---
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/cast/struct_cast_impl.hpp b/include/cast/struct_cast_impl.hpp
index 3e42e1e..45938a9 100644
--- a/include/cast/struct_cast_impl.hpp
+++ b/include/cast/struct_cast_impl.hpp
@@ -3,6 +3,7 @@
 
 
 #include <expected>
+#include <utility>
 #include "../error/cast_error.hpp"
 #include "../field_list/field_list.hpp"
 #include "../field_read/field_reader.hpp"
@@ -46,7 +47,7 @@ struct struct_cast_impl<struct_field_list_impl<metadata, fields...>, stream, end
         return {};
       }
     );
-    return res ? R(field_list) : std::unexpected(res.error());
+    return res ? R(std::move(field_list)) : std::unexpected(res.error());
   }
 };
 
diff --git a/include/field_read/field_reader.hpp b/include/field_read/field_reader.hpp
index 97519eb..a582c5d 100644
--- a/include/field_read/field_reader.hpp
+++ b/include/field_read/field_reader.hpp
@@ -185,7 +185,7 @@ struct read_field<T, F> {
       auto err = res.error();
       return std::unexpected(err.failure_reason);
     }
-    field.value = *res;
+    field.value = std::move(*res);
     return {};
   }
 };
@@ -212,7 +212,7 @@ struct read_field<T, F> {
     auto res = reader.template read<endianness>(s);
     if(!res) 
       return std::unexpected(res.error());
-    field.value = base_field.value;
+    field.value = std::move(base_field.value);
     return {};
   }
 };
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index 09c97d8..b5d9a97 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -4293,7 +4293,7 @@ struct read_field<T, F> {
       auto err = res.error();
       return std::unexpected(err.failure_reason);
     }
-    field.value = *res;
+    field.value = std::move(*res);
     return {};
   }
 };
@@ -4320,7 +4320,7 @@ struct read_field<T, F> {
     auto res = reader.template read<endianness>(s);
     if(!res) 
       return std::unexpected(res.error());
-    field.value = base_field.value;
+    field.value = std::move(base_field.value);
     return {};
   }
 };
@@ -4432,6 +4432,7 @@ struct read_field<T, F> {
 #ifndef _STRUCT_CAST_IMPL_HPP_
 #define _STRUCT_CAST_IMPL_HPP_
  
+ 
 namespace s2s {
 
 template <typename F, typename stream, auto endianness>
@@ -4470,7 +4471,7 @@ struct struct_cast_impl<struct_field_list_impl<metadata, fields...>, stream, end
         return {};
       }
     );
-    return res ? R(field_list) : std::unexpected(res.error());
+    return res ? R(std::move(field_list)) : std::unexpected(res.error());
   }
 };
 
-- 
2.43.0


From ef2d5b3730153de2b43d1e600f39b21739cda7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:47 +0000
Subject: [PATCH 09/10] fix: compare fixed strings over their whole storage,
 not up to the first zero byte

A literal with an embedded zero byte, as in magic_string<"m", "A\0B">, was
only compared up to that byte, so bytes after it were never checked and neq
rejected values that differ.
---
 include/lib/containers/fixed_string.hpp | 4 +++-
 single_header/s2s.hpp                   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/lib/containers/fixed_string.hpp b/include/lib/containers/fixed_string.hpp
index f50d947..1259c56 100644
--- a/include/lib/containers/fixed_string.hpp
+++ b/include/lib/containers/fixed_string.hpp
@@ -32,8 +32,10 @@ fixed_string(const char (&)[N]) -> fixed_string<N - 1>;
 
 template <std::size_t N1, std::size_t N2>
 constexpr bool operator==(fixed_string<N1> lhs, fixed_string<N2> rhs) {
+  // The whole storage: a zero byte inside the literal is part of it, and what
+  // follows one counts as much as what comes before.
   if constexpr(N1 != N2) return false;
-  return lhs.to_sv() == rhs.to_sv();
+  else return lhs.value == rhs.value;
 }
 
 template <std::size_t N1, std::size_t N2>
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index b5d9a97..1ae7ae0 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -52,8 +52,10 @@ fixed_string(const char (&)[N]) -> fixed_string<N - 1>;
 
 template <std::size_t N1, std::size_t N2>
 constexpr bool operator==(fixed_string<N1> lhs, fixed_string<N2> rhs) {
+  // The whole storage: a zero byte inside the literal is part of it, and what
+  // follows one counts as much as what comes before.
   if constexpr(N1 != N2) return false;
-  return lhs.to_sv() == rhs.to_sv();
+  else return lhs.value == rhs.value;
 }
 
 template <std::size_t N1, std::size_t N2>
-- 
2.43.0


From 66a64afc415288c82f4280e77ced17c277f2b28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:00 +0000
Subject: [PATCH 10/10] fix: writing a union that lost its value read past the
 discriminant table

---
 include/field_write/derived_value.hpp | 13 +++++++++++--
 single_header/s2s.hpp                 | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/field_write/derived_value.hpp b/include/field_write/derived_value.hpp
index 513a105..3dd58e5 100644
--- a/include/field_write/derived_value.hpp
+++ b/include/field_write/derived_value.hpp
@@ -293,6 +293,7 @@ struct derive_value<target, struct_field_list_impl<metadata, fields...>> {
     std::size_t derived{0};
     bool seen{false};
     bool agreed{true};
+    bool describable{true};
 
     auto record = [&](std::size_t implied) {
       if(seen && implied != derived)
@@ -305,10 +306,18 @@ struct derive_value<target, struct_field_list_impl<metadata, fields...>> {
       const auto& producer = static_cast<const fields&>(field_list);
       if constexpr(obligates<fields, target>())
         record(producer.value.size());
-      else if constexpr(discriminant_obligates<fields, target>())
-        record(discriminant_obligation<fields>::value_at(producer.value.index()));
+      else if constexpr(discriminant_obligates<fields, target>()) {
+        // An assignment that threw can leave the union holding no alternative,
+        // and then there is no discriminant to look up.
+        if(producer.value.valueless_by_exception())
+          describable = false;
+        else
+          record(discriminant_obligation<fields>::value_at(producer.value.index()));
+      }
     }()), ...);
 
+    if(!describable)
+      return std::unexpected(error_reason::validation_failure);
     // Two distinct failures: the dependents contradict one another, or they
     // agree on a value the declared slot cannot hold.
     if(!agreed)
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index 1ae7ae0..bf2a4cf 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -4790,6 +4790,7 @@ struct derive_value<target, struct_field_list_impl<metadata, fields...>> {
     std::size_t derived{0};
     bool seen{false};
     bool agreed{true};
+    bool describable{true};
 
     auto record = [&](std::size_t implied) {
       if(seen && implied != derived)
@@ -4802,10 +4803,18 @@ struct derive_value<target, struct_field_list_impl<metadata, fields...>> {
       const auto& producer = static_cast<const fields&>(field_list);
       if constexpr(obligates<fields, target>())
         record(producer.value.size());
-      else if constexpr(discriminant_obligates<fields, target>())
-        record(discriminant_obligation<fields>::value_at(producer.value.index()));
+      else if constexpr(discriminant_obligates<fields, target>()) {
+        // An assignment that threw can leave the union holding no alternative,
+        // and then there is no discriminant to look up.
+        if(producer.value.valueless_by_exception())
+          describable = false;
+        else
+          record(discriminant_obligation<fields>::value_at(producer.value.index()));
+      }
     }()), ...);
 
+    if(!describable)
+      return std::unexpected(error_reason::validation_failure);
     // Two distinct failures: the dependents contradict one another, or they
     // agree on a value the declared slot cannot hold.
     if(!agreed)
-- 
2.43.0

