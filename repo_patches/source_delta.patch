From cde3d35b773af1f47a51abe6a0739893a81d5999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:14 +0000
Subject: [PATCH 01/17] fix: signed overflow when converting the most negative
 value to or from two's complement

---
 include/upd/detail/signed_representation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/upd/detail/signed_representation.hpp b/include/upd/detail/signed_representation.hpp
index d34ad05..9f431ad 100644
--- a/include/upd/detail/signed_representation.hpp
+++ b/include/upd/detail/signed_representation.hpp
@@ -24,7 +24,7 @@ T from_signed_mode_impl(unsigned long long value) {
 template<typename T, signed_mode Signed_Mode, detail::require<Signed_Mode == signed_mode::TWOS_COMPLEMENT> = 0>
 T from_signed_mode_impl(unsigned long long value) {
   constexpr auto sign_mask = 0b10000000ull << 8 * (sizeof(T) - 1);
-  return value & sign_mask ? T(-T(~value + 1)) : T(value);
+  return value & sign_mask ? T(-T(~value) - 1) : T(value);
 }
 template<typename T, signed_mode Signed_Mode, detail::require<Signed_Mode == signed_mode::OFFSET_BINARY> = 0>
 T from_signed_mode_impl(unsigned long long value) {
@@ -56,7 +56,7 @@ unsigned long long to_signed_mode_impl(T value) {
 }
 template<signed_mode Signed_Mode, typename T, detail::require<Signed_Mode == signed_mode::TWOS_COMPLEMENT> = 0>
 unsigned long long to_signed_mode_impl(T value) {
-  return value >= 0 ? static_cast<unsigned long long>(value) : static_cast<unsigned long long>(~(-value - 1));
+  return static_cast<unsigned long long>(value);
 }
 template<signed_mode Signed_Mode, typename T, detail::require<Signed_Mode == signed_mode::OFFSET_BINARY> = 0>
 unsigned long long to_signed_mode_impl(T value) {
-- 
2.43.0


From d9478873ef48f40246af0a13baf9b8bab53aa754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:52 +0000
Subject: [PATCH 02/17] fix: receiving a byte other than 0 or 1 as a bool on a
 platform with declared byte order made an invalid bool

---
 include/upd/detail/endianess.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/upd/detail/endianess.hpp b/include/upd/detail/endianess.hpp
index 14561ef..742089c 100644
--- a/include/upd/detail/endianess.hpp
+++ b/include/upd/detail/endianess.hpp
@@ -4,6 +4,7 @@
 
 #include <cstddef>
 #include <cstring>
+#include <type_traits>
 
 #include "../format.hpp"
 #include "../type.hpp"
@@ -37,14 +38,18 @@ T from_endianess_impl(const byte_t *raw_data, std::size_t n) {
 }
 
 //! \brief Interpret a sequence of byte as an integer according to the provided endianess
-template<typename T, endianess Endianess, UPD_REQUIRE(platform_info.endianess == Endianess)>
+template<typename T,
+         endianess Endianess,
+         UPD_REQUIRE(platform_info.endianess == Endianess && !std::is_same<T, bool>::value)>
 T from_endianess(const byte_t *raw_data, std::size_t n) {
   auto retval = T(0);
   memcpy(&retval, raw_data, n);
 
   return retval;
 }
-template<typename T, endianess Endianess, UPD_REQUIRE(platform_info.endianess != Endianess)>
+template<typename T,
+         endianess Endianess,
+         UPD_REQUIRE(platform_info.endianess != Endianess || std::is_same<T, bool>::value)>
 T from_endianess(const byte_t *raw_data, std::size_t n) {
   return from_endianess_impl<T, Endianess>(raw_data, n);
 }
-- 
2.43.0


From 8e22365c363ff57b89e0e7dc7de3684a7f8f0872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:59 +0000
Subject: [PATCH 03/17] fix: announced sizes ignored the serialized size of
 types with an extension

Payload lengths, sizes of storage-less actions and sizes of dispatcher buffers
were computed from the size in memory of the parameters and return values.
---
 include/upd/detail/type_traits/signature.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/upd/detail/type_traits/signature.hpp b/include/upd/detail/type_traits/signature.hpp
index 661b5f0..724d671 100644
--- a/include/upd/detail/type_traits/signature.hpp
+++ b/include/upd/detail/type_traits/signature.hpp
@@ -6,6 +6,7 @@
 #include <type_traits>
 
 #include "detector.hpp"
+#include "remove_cv_ref.hpp"
 #include "typelist.hpp"
 
 #include "../../upd.hpp"
@@ -13,6 +14,9 @@
 namespace upd {
 namespace detail {
 
+template<typename>
+struct serialization_size; // IWYU pragma: keep
+
 //! \name
 //! \brief Allows to hold a function signature
 //!
@@ -98,13 +102,14 @@ template<typename F>
 struct is_invocable : decltype(is_invocable_impl<F>(0)) {};
 
 //! \name
-//! \brief Sums the sizes of the parameters of `F`
+//! \brief Sums the sizes of the serialized parameters of `F`
 //! @{
 
 template<typename F>
 struct parameters_size : parameters_size<signature_t<F>> {};
 template<typename R, typename... Args>
-struct parameters_size<R(Args...)> : sum<detail::tlist_t<std::integral_constant<std::size_t, sizeof(Args)>...>> {};
+struct parameters_size<R(Args...)>
+    : sum<detail::tlist_t<std::integral_constant<std::size_t, serialization_size<remove_cv_ref_t<Args>>::value>...>> {};
 
 //! @}
 
@@ -119,11 +124,12 @@ struct map_parameters_size<tlist_t<Fs...>> : tlist_t<parameters_size<Fs>...> {};
 
 //! @}
 
-//! \brief Gets the size of the return type of `F`
+//! \brief Gets the size of the serialized return type of `F`
 template<typename F>
 struct return_type_size : return_type_size<detail::signature_t<F>> {};
 template<typename R, typename... Args>
-struct return_type_size<R(Args...)> : std::integral_constant<std::size_t, sizeof(R)> {};
+struct return_type_size<R(Args...)>
+    : std::integral_constant<std::size_t, serialization_size<remove_cv_ref_t<R>>::value> {};
 template<typename... Args>
 struct return_type_size<void(Args...)> : std::integral_constant<std::size_t, 0> {};
 
-- 
2.43.0


From c1a71dc3c81dc911fed9e73075eb9d46a74d9912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:59 +0000
Subject: [PATCH 04/17] fix: accessing a type with an extension through an
 iterator used its size in memory

Reading or writing such a value through a view bound with anything but a plain
pointer moved as many bytes as the type occupies in memory.
---
 include/upd/detail/serialization.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/upd/detail/serialization.hpp b/include/upd/detail/serialization.hpp
index 37130b0..e4ba896 100644
--- a/include/upd/detail/serialization.hpp
+++ b/include/upd/detail/serialization.hpp
@@ -86,7 +86,7 @@ T read_as(const byte_t *sequence) {
 }
 template<typename T, endianess Endianess, signed_mode Signed_Mode, typename It, detail::require_not_pointer<It> = 0>
 decltype(read_as<T, Endianess, Signed_Mode>(std::declval<byte_t *>())) read_as(It it) {
-  byte_t buf[sizeof(T)];
+  byte_t buf[serialization_size<T>::value];
   for (byte_t &byte : buf)
     byte = *it++;
   return read_as<T, Endianess, Signed_Mode>(buf);
@@ -149,7 +149,7 @@ void write_as(const T &x, byte_t *sequence) {
 }
 template<endianess Endianess, signed_mode Signed_Mode, typename T, typename It, detail::require_not_pointer<It> = 0>
 void write_as(const T &value, It it) {
-  byte_t buf[sizeof(T)];
+  byte_t buf[serialization_size<T>::value];
 
   write_as<Endianess, Signed_Mode>(value, buf);
   for (const byte_t &byte : buf)
-- 
2.43.0


From 4587d20badb69f73b03db6eaa7b74727be99d910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:31 +0000
Subject: [PATCH 05/17] fix: arrays of types with a serialization extension did
 not compile, and used the size in memory

The element serializers were declared after their use for arrays, and elements
were laid out according to their size in memory.
---
 include/upd/detail/serialization.hpp | 14 +++++++++-----
 include/upd/tuple.hpp                |  5 +++++
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/upd/detail/serialization.hpp b/include/upd/detail/serialization.hpp
index e4ba896..739979d 100644
--- a/include/upd/detail/serialization.hpp
+++ b/include/upd/detail/serialization.hpp
@@ -66,6 +66,8 @@ T read_as(const byte_t *sequence) {
 
   return detail::from_signed_mode<T, Signed_Mode>(tmp);
 }
+template<typename T, endianess Endianess, signed_mode Signed_Mode, detail::require_is_user_serializable<T> = 0>
+T read_as(const byte_t *sequence);
 template<typename T, endianess Endianess, signed_mode Signed_Mode, detail::require_array<T> = 0>
 detail::array_t<T> read_as(const byte_t *sequence) {
   detail::array_t<T> retval;
@@ -74,11 +76,11 @@ detail::array_t<T> read_as(const byte_t *sequence) {
   constexpr auto size = retval.size();
 
   for (std::size_t i = 0; i < size; i++)
-    retval[i] = read_as<element_t, Endianess, Signed_Mode>(sequence + i * sizeof(element_t));
+    retval[i] = read_as<element_t, Endianess, Signed_Mode>(sequence + i * serialization_size<element_t>::value);
 
   return retval;
 }
-template<typename T, endianess Endianess, signed_mode Signed_Mode, detail::require_is_user_serializable<T> = 0>
+template<typename T, endianess Endianess, signed_mode Signed_Mode, detail::require_is_user_serializable<T>>
 T read_as(const byte_t *sequence) {
   auto view = detail::make_view_for<Endianess, Signed_Mode>(
       sequence, detail::examine_invocable<decltype(upd_extension<T>::unserialize)>{});
@@ -134,14 +136,16 @@ void write_as(const T &x, byte_t *sequence) {
 
   detail::to_endianess<Endianess>(sequence, tmp, sizeof(x));
 }
+template<endianess Endianess, signed_mode Signed_Mode, typename T, detail::require_is_user_serializable<T> = 0>
+void write_as(const T &x, byte_t *sequence);
 template<endianess Endianess, signed_mode Signed_Mode, typename T, detail::require_array<T> = 0>
 void write_as(const T &array, byte_t *sequence) {
-  using element_t = decltype(array[0]);
+  using element_t = typename detail::array_t<T>::value_type;
   constexpr auto array_size = sizeof(array) / sizeof(array[0]);
   for (std::size_t i = 0; i < array_size; i++)
-    write_as<Endianess, Signed_Mode>(array[i], sequence + i * sizeof(element_t));
+    write_as<Endianess, Signed_Mode>(array[i], sequence + i * serialization_size<element_t>::value);
 }
-template<endianess Endianess, signed_mode Signed_Mode, typename T, detail::require_is_user_serializable<T> = 0>
+template<endianess Endianess, signed_mode Signed_Mode, typename T, detail::require_is_user_serializable<T>>
 void write_as(const T &x, byte_t *sequence) {
   auto view = detail::make_view_for<Endianess, Signed_Mode>(
       sequence, detail::examine_invocable<decltype(upd_extension<T>::unserialize)>{});
diff --git a/include/upd/tuple.hpp b/include/upd/tuple.hpp
index 18ed54f..a215ef9 100644
--- a/include/upd/tuple.hpp
+++ b/include/upd/tuple.hpp
@@ -60,6 +60,11 @@ constexpr std::size_t serialization_size_impl(int) {
       (byte_t *)nullptr, examine_invocable<decltype(upd_extension<T>::unserialize)>{}))::size;
 }
 
+template<typename T, detail::require_array<T> = 0>
+constexpr std::size_t serialization_size_impl(int) {
+  return std::tuple_size<array_t<T>>::value * serialization_size<typename array_t<T>::value_type>::value;
+}
+
 //! \brief Return the size in bytes occupied by the serialization of instances of the provided type (if serializable)
 template<typename T>
 struct serialization_size {
-- 
2.43.0


From 4511cac63439e5a086d167527f639e061701b85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:29 +0000
Subject: [PATCH 06/17] fix: output buffers were sized after parameters instead
 of return values

An action whose response was longer than any parameter list overran the output
buffer of the dispatcher.
---
 include/upd/buffered_dispatcher.hpp          |  5 +++--
 include/upd/detail/type_traits/signature.hpp | 11 +++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/upd/buffered_dispatcher.hpp b/include/upd/buffered_dispatcher.hpp
index 081f0b0..7c709f0 100644
--- a/include/upd/buffered_dispatcher.hpp
+++ b/include/upd/buffered_dispatcher.hpp
@@ -20,6 +20,7 @@
 #include "detail/type_traits/typelist.hpp"
 
 // IWYU pragma: no_forward_declare upd::detail::map_parameters_size
+// IWYU pragma: no_forward_declare upd::detail::map_return_type_size
 
 namespace upd {
 namespace detail {
@@ -33,7 +34,7 @@ using needed_input_buffer_size =
 
 //! \brief How many bytes that would be needed to represent any action response of `Keyring`
 template<typename Keyring>
-using needed_output_buffer_size = detail::max<detail::map_parameters_size<typename Keyring::signatures_t::type>>;
+using needed_output_buffer_size = detail::max<detail::map_return_type_size<typename Keyring::signatures_t::type>>;
 
 } // namespace detail
 
@@ -377,7 +378,7 @@ public:
   double_buffered_dispatcher() = default;
 
 private:
-  byte_t m_ibuf[input_buffer_size], m_obuf[output_buffer_size];
+  byte_t m_ibuf[input_buffer_size], m_obuf[output_buffer_size > 0 ? output_buffer_size : 1];
 };
 
 #if __cplusplus >= 201703L
diff --git a/include/upd/detail/type_traits/signature.hpp b/include/upd/detail/type_traits/signature.hpp
index 724d671..df5d33e 100644
--- a/include/upd/detail/type_traits/signature.hpp
+++ b/include/upd/detail/type_traits/signature.hpp
@@ -133,6 +133,17 @@ struct return_type_size<R(Args...)>
 template<typename... Args>
 struct return_type_size<void(Args...)> : std::integral_constant<std::size_t, 0> {};
 
+//! \name
+//! \brief Map `return_type_size` over a typelist of invocable type
+//! @{
+
+template<typename>
+struct map_return_type_size;
+template<typename... Fs>
+struct map_return_type_size<tlist_t<Fs...>> : tlist_t<return_type_size<Fs>...> {};
+
+//! @}
+
 UPD_DETAIL_MAKE_DETECTOR(
     has_signature_impl,
     UPD_PACK(typename F, typename R, typename... Args),
-- 
2.43.0


From 0ff93a158c76bf5355cb36fd26810192d098ac59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:36 +0000
Subject: [PATCH 07/17] fix: replace<Index, Ftor>() and with_hook<Ftor>() did
 not compile with clang for functions

---
 include/upd/dispatcher.hpp | 5 ++++-
 include/upd/key.hpp        | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/upd/dispatcher.hpp b/include/upd/dispatcher.hpp
index ea6d223..0d618b3 100644
--- a/include/upd/dispatcher.hpp
+++ b/include/upd/dispatcher.hpp
@@ -170,7 +170,10 @@ public:
     static_assert(std::is_same<detail::at<signatures_t, Index>, detail::signature_t<decltype(Ftor)>>::value,
                   UPD_ERROR_SIGNATURE_MISMATCH(Ftor));
 
-    replace<Index>(unevaluated<decltype(Ftor) &, Ftor>{});
+    if constexpr (std::is_function<typename std::remove_reference<decltype(Ftor)>::type>::value)
+      replace<Index>(unevaluated<decltype(&Ftor), &Ftor>{});
+    else
+      replace<Index>(unevaluated<decltype(Ftor) &, Ftor>{});
   }
 #endif // __cplusplus >= 201703L
 
diff --git a/include/upd/key.hpp b/include/upd/key.hpp
index f2819d3..ee8f163 100644
--- a/include/upd/key.hpp
+++ b/include/upd/key.hpp
@@ -154,7 +154,10 @@ public:
   //! \return an action holding the provided hook
   template<auto &Ftor, UPD_REQUIREMENT(invocable, decltype(Ftor))>
   auto with_hook() const {
-    return with_hook(unevaluated<decltype(Ftor), Ftor>{});
+    if constexpr (std::is_function<typename std::remove_reference<decltype(Ftor)>::type>::value)
+      return with_hook(unevaluated<decltype(&Ftor), &Ftor>{});
+    else
+      return with_hook(unevaluated<decltype(Ftor), Ftor>{});
   }
 #endif // __cplusplus >= 201703L
 
-- 
2.43.0


From 53b8f131ce5d525c47185356b80a63ed33fa169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:48 +0000
Subject: [PATCH 08/17] fix: reference-only actions could not wrap a callback
 returning a std::array

---
 include/upd/action.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/upd/action.hpp b/include/upd/action.hpp
index 611a33b..b41d678 100644
--- a/include/upd/action.hpp
+++ b/include/upd/action.hpp
@@ -35,7 +35,7 @@ template<endianess Endianess, signed_mode Signed_Mode, typename T, UPD_REQUIREME
 void insert(dest_t &dest, const T &value) {
   using namespace upd;
 
-  auto output = make_tuple(endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}, value);
+  auto output = upd::make_tuple(endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}, value);
   for (byte_t byte : output)
     dest(byte);
 }
@@ -135,7 +135,8 @@ void static_storage_duration_callback_wrapper(src_t &&src, dest_t &&dest) {
   input_tuple<Endianess, Signed_Mode, F> parameters_tuple;
   for (auto &byte : parameters_tuple)
     byte = src();
-  auto return_tuple = make_tuple(endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}, parameters_tuple.invoke(Ftor));
+  auto return_tuple =
+      upd::make_tuple(endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}, parameters_tuple.invoke(Ftor));
   for (auto byte : return_tuple)
     dest(byte);
 }
-- 
2.43.0


From 90e703d1ba725f70e4c71f96f12b6534a3313878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:03 +0000
Subject: [PATCH 09/17] fix: reply() sent uninitialized memory after the
 response

---
 include/upd/buffered_dispatcher.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/upd/buffered_dispatcher.hpp b/include/upd/buffered_dispatcher.hpp
index 7c709f0..90bf3a1 100644
--- a/include/upd/buffered_dispatcher.hpp
+++ b/include/upd/buffered_dispatcher.hpp
@@ -240,7 +240,7 @@ public:
 
     using buf_t = typename Key::tuple_t::template arg_t<0>;
 
-    buf_t buf;
+    buf_t buf{};
     write_to(std::begin(buf));
     k(buf).write_to(UPD_FWD(output));
 
-- 
2.43.0


From 1eeac55d07526eeef4866560acd8a88384c40fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:42 +0000
Subject: [PATCH 10/17] fix: assignment between tuples holding plain arrays did
 not compile

---
 include/upd/tuple.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/upd/tuple.hpp b/include/upd/tuple.hpp
index a215ef9..c735a1c 100644
--- a/include/upd/tuple.hpp
+++ b/include/upd/tuple.hpp
@@ -155,6 +155,18 @@ public:
     write_as<Endianess, Signed_Mode>(value, derived().src(), offset);
   }
 
+  //! \brief Set one of the arrays held by the object from the value returned by \ref<get> get
+  //! \tparam I Index of the plain array which will be set
+  //! \param value Value to be copied from
+  template<std::size_t I, typename T, std::size_t N, UPD_REQUIRE(std::is_same<arg_t<I>, T[N]>::value)>
+  void set(const std::array<T, N> &value) {
+    using detail::clip;
+    using detail::sum;
+
+    constexpr auto offset = sum<clip<sizes_t, 0, I>>::value;
+    write_as<Endianess, Signed_Mode>(value, derived().src(), offset);
+  }
+
   //! \brief Invoke a functor with the stored values
   //! \param ftor Callback to be invoked
   //! \return `ftor(upd::get<Is>()...)` with `Is` = `0`, `1`, ..., `sizeof...(Ts)`
-- 
2.43.0


From d9fad948bbd4a358a99766f73ffbebfb6902e8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:52 +0000
Subject: [PATCH 11/17] fix: actions referred to callbacks passed as lvalues
 instead of holding a copy

---
 include/upd/action.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/upd/action.hpp b/include/upd/action.hpp
index b41d678..c100593 100644
--- a/include/upd/action.hpp
+++ b/include/upd/action.hpp
@@ -4,6 +4,7 @@
 
 #include <cstddef>
 #include <memory>
+#include <type_traits>
 
 #include "format.hpp"
 #include "tuple.hpp"
@@ -76,9 +77,9 @@ template<typename F, endianess Endianess, signed_mode Signed_Mode>
 struct action_model_impl {
   using tuple_t = input_tuple<Endianess, Signed_Mode, F>;
 
-  explicit action_model_impl(F &&ftor) : ftor{UPD_FWD(ftor)} {}
+  explicit action_model_impl(F &&ftor) : ftor(UPD_FWD(ftor)) {}
 
-  F ftor;
+  typename std::decay<F>::type ftor;
 };
 
 //! \brief Abstract class used for setting up type erasure in the `action` class
-- 
2.43.0


From a29aa9e48f396c7d4e8098656a69ae6eabb3dfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:56 +0000
Subject: [PATCH 12/17] fix: user-defined buffered dispatchers with a virtual
 function or another base class corrupted memory

---
 include/upd/buffered_dispatcher.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/upd/buffered_dispatcher.hpp b/include/upd/buffered_dispatcher.hpp
index 90bf3a1..940e372 100644
--- a/include/upd/buffered_dispatcher.hpp
+++ b/include/upd/buffered_dispatcher.hpp
@@ -70,8 +70,8 @@ class buffered_dispatcher : public detail::immediate_reader<buffered_dispatcher<
                             public detail::immediate_process<buffered_dispatcher<D, Dispatcher>, packet_status> {
   using this_t = buffered_dispatcher<D, Dispatcher>;
 
-  D &derived() { return reinterpret_cast<D &>(*this); }
-  const D &derived() const { return reinterpret_cast<const D &>(*this); }
+  D &derived() { return static_cast<D &>(*this); }
+  const D &derived() const { return static_cast<const D &>(*this); }
 
 public:
   //! \copydoc dispatcher::index_t
-- 
2.43.0


From aa753cdc19a018a434065937de0368634a65047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:58 +0000
Subject: [PATCH 13/17] fix: a callback that throws left its buffered
 dispatcher with an overflowing input buffer

---
 include/upd/buffered_dispatcher.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/upd/buffered_dispatcher.hpp b/include/upd/buffered_dispatcher.hpp
index 940e372..a92edf2 100644
--- a/include/upd/buffered_dispatcher.hpp
+++ b/include/upd/buffered_dispatcher.hpp
@@ -264,12 +264,14 @@ private:
 
     auto *ibuf_ptr = derived().ibuf_begin();
     auto index = get_index([&]() { return *ibuf_ptr++; });
-    m_dispatcher[index]([&]() { return *ibuf_ptr++; },
-                        [&](byte_t byte) { derived().obuf_begin()[m_obuf_bottom++] = byte; });
 
+    // The callback may throw: be ready for the next request beforehand
     m_is_index_loaded = false;
     m_load_count = sizeof(index_t);
     m_ibuf_next = 0;
+
+    m_dispatcher[index]([&]() { return *ibuf_ptr++; },
+                        [&](byte_t byte) { derived().obuf_begin()[m_obuf_bottom++] = byte; });
   }
 
   //! \copydoc dispatcher::get_index
-- 
2.43.0


From 08b28463fe09ff6ecbfc4d27f8ab48f01346ebd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:02 +0000
Subject: [PATCH 14/17] fix: actions call their copy with the value category of
 the callback they were given

---
 include/upd/action.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/upd/action.hpp b/include/upd/action.hpp
index c100593..919af8c 100644
--- a/include/upd/action.hpp
+++ b/include/upd/action.hpp
@@ -79,7 +79,9 @@ struct action_model_impl {
 
   explicit action_model_impl(F &&ftor) : ftor(UPD_FWD(ftor)) {}
 
-  typename std::decay<F>::type ftor;
+  typename std::conditional<std::is_function<typename std::remove_reference<F>::type>::value,
+                            F,
+                            typename std::decay<F>::type>::type ftor;
 };
 
 //! \brief Abstract class used for setting up type erasure in the `action` class
@@ -111,7 +113,9 @@ public:
     action_model::output_size = flatten_tuple_t<Endianess, Signed_Mode, return_t<F>>::size;
   }
 
-  void operator()(src_t &&src, dest_t &&dest) final { return detail::call<tuple_t>(src, dest, UPD_FWD(m_impl.ftor)); }
+  void operator()(src_t &&src, dest_t &&dest) final {
+    return detail::call<tuple_t>(src, dest, static_cast<F &&>(m_impl.ftor));
+  }
 
 private:
   impl_t m_impl;
-- 
2.43.0


From abacf9a690c21b0ac095d7fcfa4393ae5c504443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:14 +0000
Subject: [PATCH 15/17] fix: actions and dispatchers rejected sources and sinks
 that keys accept

---
 include/upd/action.hpp                    |  5 ++--
 include/upd/detail/function_reference.hpp | 36 +++++++----------------
 2 files changed, 14 insertions(+), 27 deletions(-)

diff --git a/include/upd/action.hpp b/include/upd/action.hpp
index 919af8c..0237eaf 100644
--- a/include/upd/action.hpp
+++ b/include/upd/action.hpp
@@ -181,7 +181,8 @@ public:
   template<typename Src, typename Dest, UPD_REQUIREMENT(input_invocable, Src), UPD_REQUIREMENT(output_invocable, Dest)>
   void operator()(Src &&src, Dest &&dest) const {
     if (m_concept_uptr)
-      (*m_concept_uptr)(detail::make_function_reference(src), detail::make_function_reference(dest));
+      (*m_concept_uptr)(detail::make_function_reference<byte_t()>(src),
+                        detail::make_function_reference<void(byte_t)>(dest));
   }
 
   UPD_SFINAE_FAILURE_MEMBER(operator(), UPD_ERROR_NOT_INPUT(src) " OR " UPD_ERROR_NOT_OUTPUT(dest))
@@ -225,7 +226,7 @@ public:
   //! \copydoc action::operator()()
   template<typename Src, typename Dest, UPD_REQUIREMENT(input_invocable, Src), UPD_REQUIREMENT(output_invocable, Dest)>
   void operator()(Src &&src, Dest &&dest) const {
-    m_wrapper(detail::make_function_reference(src), detail::make_function_reference(dest));
+    m_wrapper(detail::make_function_reference<byte_t()>(src), detail::make_function_reference<void(byte_t)>(dest));
   }
 
   //! \copydoc action::input_size
diff --git a/include/upd/detail/function_reference.hpp b/include/upd/detail/function_reference.hpp
index 08d52fa..4ee098c 100644
--- a/include/upd/detail/function_reference.hpp
+++ b/include/upd/detail/function_reference.hpp
@@ -2,8 +2,6 @@
 
 #pragma once
 
-#include "type_traits/signature.hpp"
-
 namespace upd {
 namespace detail {
 
@@ -28,15 +26,10 @@ struct abstract_function<R(Args...)> {
 template<typename...>
 class function_reference_impl;
 
-//! \brief Implementation of 'function_reference'
-//! \details
-//!   This class is base of 'function_reference'. It could be used as it is, though it would impraticable as the
-//!   functor type, its return and parameter types must be provided explicitely. The 'function_reference' is just here
-//!   to deduce the return and parameter types from the functor type and derive from the according template instance of
-//!   'function_reference_impl'.
+//! \brief Reference to a functor implementing the interface defined by 'abstract_function'
 //! \tparam F type of the held functor
-//! \tparam R return type of the held functor
-//! \tparam Args... parameter types of the held functor
+//! \tparam R return type of the interface
+//! \tparam Args... parameter types of the interface
 template<typename F, typename R, typename... Args>
 class function_reference_impl<F, R(Args...)> : public abstract_function<R(Args...)> {
 public:
@@ -48,23 +41,16 @@ private:
   F &m_ftor;
 };
 
-//! \brief Wrap a reference to a functor and allow calling it through the interface defined by 'abstract_function'
+//! \brief Wrap a functor by reference into an object callable through the interface defined by 'abstract_function'
 //! \details
-//!   This class allow type erasure without dynamic allocation. However, the wrapped functor is held by reference and
-//!   is not copied (as it would be with 'std::function').
-//! \tparam F type of the functor wrapped by reference
-template<typename F>
-class function_reference : public function_reference_impl<F, signature_t<F>> {
-public:
-  using function_reference_impl<F, signature_t<F>>::function_reference_impl;
-};
-
-//! \brief Wrap a functor by reference into a 'function_reference' object
+//!   This allows type erasure without dynamic allocation. However, the wrapped functor is held by reference and is not
+//!   copied (as it would be with 'std::function').
+//! \tparam Signature signature of the interface (the parameters and the return value are converted if need be)
 //! \param ftor wrapped functor
-//! \return a 'function_reference' object wrapping the provided functor
-template<typename F>
-function_reference<F> make_function_reference(F &ftor) {
-  return function_reference<F>(ftor);
+//! \return an object wrapping the provided functor
+template<typename Signature, typename F>
+function_reference_impl<F, Signature> make_function_reference(F &ftor) {
+  return function_reference_impl<F, Signature>(ftor);
 }
 
 } // namespace detail
-- 
2.43.0


From 873f5e18bc4ad6ef1a87bbe0b67f037725af7f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:23 +0000
Subject: [PATCH 16/17] fix: signed integers were read and written from the
 wrong end of a wider integer on big-endian hosts with declared formats

---
 include/upd/detail/serialization.hpp         | 4 ++--
 include/upd/detail/signed_representation.hpp | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/upd/detail/serialization.hpp b/include/upd/detail/serialization.hpp
index 739979d..83d3396 100644
--- a/include/upd/detail/serialization.hpp
+++ b/include/upd/detail/serialization.hpp
@@ -62,7 +62,7 @@ T read_as(const byte_t *sequence) {
 }
 template<typename T, endianess Endianess, signed_mode Signed_Mode, detail::require_signed_integer<T> = 0>
 T read_as(const byte_t *sequence) {
-  auto tmp = detail::from_endianess<unsigned long long, Endianess>(sequence, sizeof(T));
+  auto tmp = detail::from_endianess<typename std::make_unsigned<T>::type, Endianess>(sequence, sizeof(T));
 
   return detail::from_signed_mode<T, Signed_Mode>(tmp);
 }
@@ -132,7 +132,7 @@ void write_as(const T &x, byte_t *sequence) {
 }
 template<endianess Endianess, signed_mode Signed_Mode, typename T, detail::require_signed_integer<T> = 0>
 void write_as(const T &x, byte_t *sequence) {
-  auto tmp = detail::to_signed_mode<Signed_Mode>(x);
+  auto tmp = static_cast<typename std::make_unsigned<T>::type>(detail::to_signed_mode<Signed_Mode>(x));
 
   detail::to_endianess<Endianess>(sequence, tmp, sizeof(x));
 }
diff --git a/include/upd/detail/signed_representation.hpp b/include/upd/detail/signed_representation.hpp
index 9f431ad..3ddda11 100644
--- a/include/upd/detail/signed_representation.hpp
+++ b/include/upd/detail/signed_representation.hpp
@@ -2,6 +2,9 @@
 
 #pragma once
 
+#include <cstring>
+#include <type_traits>
+
 #include "../format.hpp"
 #include "../upd.hpp"
 #include "type_traits/require.hpp"
@@ -35,8 +38,9 @@ T from_signed_mode_impl(unsigned long long value) {
 //! \brief Interpret a sequence of bytes as an integer using the provided signed number representation
 template<typename T, signed_mode Signed_Mode, UPD_REQUIRE(platform_info.signed_mode == Signed_Mode)>
 T from_signed_mode(unsigned long long value) {
+  auto tmp = static_cast<typename std::make_unsigned<T>::type>(value);
   T retval;
-  memcpy(&retval, &value, sizeof(retval));
+  memcpy(&retval, &tmp, sizeof(retval));
   return retval;
 }
 template<typename T, signed_mode Signed_Mode, UPD_REQUIRE(platform_info.signed_mode != Signed_Mode)>
@@ -67,7 +71,7 @@ unsigned long long to_signed_mode_impl(T value) {
 //! \brief Serialize an integer using the provided signed number representation
 template<signed_mode Signed_Mode, typename T, UPD_REQUIRE(platform_info.signed_mode == Signed_Mode)>
 unsigned long long to_signed_mode(T value) {
-  unsigned long long retval;
+  typename std::make_unsigned<T>::type retval;
   memcpy(&retval, &value, sizeof value);
 
   return retval;
-- 
2.43.0


From bdaf85f3bdda5c7d26b4a2ae392650ea21913d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:51 +0000
Subject: [PATCH 17/17] fix: actions could not wrap callbacks returning a
 reference

---
 include/upd/action.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/upd/action.hpp b/include/upd/action.hpp
index 0237eaf..f6b4349 100644
--- a/include/upd/action.hpp
+++ b/include/upd/action.hpp
@@ -17,6 +17,7 @@
 #include "detail/static_error.hpp"
 #include "detail/type_traits/flatten_tuple.hpp"
 #include "detail/type_traits/input_tuple.hpp"
+#include "detail/type_traits/remove_cv_ref.hpp"
 #include "detail/type_traits/require.hpp"
 #include "detail/type_traits/signature.hpp"
 
@@ -110,7 +111,7 @@ class action_model : public action_concept {
 public:
   explicit action_model(F &&ftor) : m_impl{UPD_FWD(ftor)} {
     action_model::input_size = tuple_t::size;
-    action_model::output_size = flatten_tuple_t<Endianess, Signed_Mode, return_t<F>>::size;
+    action_model::output_size = flatten_tuple_t<Endianess, Signed_Mode, remove_cv_ref_t<return_t<F>>>::size;
   }
 
   void operator()(src_t &&src, dest_t &&dest) final {
-- 
2.43.0

