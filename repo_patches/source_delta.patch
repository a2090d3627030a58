From 1a20d9ceb2089cc0c58205e90a32fcf59945715a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 01/56] fix: Buffer::Shrink and ReserveWriteSpace keep the
 readable bytes inside the storage

Shrink moved the contents but left the indexes and the prefix out of the new
size; ReserveWriteSpace wrapped around when bytes had been prepended.
---
 kanon/buffer/buffer.cc | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/kanon/buffer/buffer.cc b/kanon/buffer/buffer.cc
index 3d24d36..22aa785 100644
--- a/kanon/buffer/buffer.cc
+++ b/kanon/buffer/buffer.cc
@@ -1,5 +1,7 @@
 #include "buffer.h"
 
+#include <string.h>
+
 using namespace kanon;
 
 Buffer::Buffer(size_type init_size)
@@ -19,18 +21,21 @@ void Buffer::Shrink(size_type n)
   // tmp.ReserveWriteSpace(GetReadableSize() + n);
   // tmp.Append(ToStringView());
   // swap(tmp);
+  auto readable = GetReadableSize();
+
+  // The prepended bytes may occupy the prefix region(i.e. read_index_ < prefix),
+  // then the contents are moved backward and must fit in the storage.
+  data_.Grow(BUFFER_PREFIX_SIZE + readable);
+
   if (read_index_ != BUFFER_PREFIX_SIZE) {
-    std::copy(offset(read_index_), offset(write_index_),
-              offset(BUFFER_PREFIX_SIZE));
+    // The two regions may overlap in either direction
+    ::memmove(&*offset(BUFFER_PREFIX_SIZE), &*offset(read_index_), readable);
   }
 
-#ifndef NDEBUG
-  if (read_index_ == write_index_) {
-    assert(read_index_ == BUFFER_PREFIX_SIZE);
-  }
-#endif
+  read_index_ = BUFFER_PREFIX_SIZE;
+  write_index_ = read_index_ + readable;
 
-  data_.Shrink(GetReadableSize() + n);
+  data_.Shrink(write_index_ + n);
 }
 
 void Buffer::ReserveWriteSpace(size_type len) KANON_NOEXCEPT
@@ -52,7 +57,7 @@ void Buffer::ReserveWriteSpace(size_type len) KANON_NOEXCEPT
   // | | |                        |
   // +-+-+------------------------+
   //
-  if (len > GetPrependableSize() - BUFFER_PREFIX_SIZE + GetWritableSize()) {
+  if (len + BUFFER_PREFIX_SIZE > GetPrependableSize() + GetWritableSize()) {
     // FIXME Need copy [readable region] to the BUFFER_PREFIX_SIZE?
 #if 0
     size_t at_least_size = write_index_ + len;
-- 
2.43.0


From b3a8f60750086dfdc475831426bbede4b357ec63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:41 +0000
Subject: [PATCH 02/56] fix: StringView searches and single-character
 comparisons follow the standard definitions

find() stopped at embedded NULs, rfind() read before an empty view, the
find_last_of family looped, skipped index 0 or returned the wrong position,
compare(char) disagreed with compare(StringView), copy() read past the end.
---
 kanon/string/string_view.h | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index 05b0b79..f9b0351 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -205,6 +205,7 @@ class StringView {
       throw std::out_of_range{"Given position over length of StringView"};
     }
 
+    count = std::min(count, len_ - pos);
     ::memcpy(dst, data_ + pos, count);
     return count;
   }
@@ -237,7 +238,7 @@ class StringView {
     if (v.size() <= len_) {
       size_type n = len_ - v.size() + 1;
       for (size_type i = pos; i < n; ++i) {
-        if (!::strncmp(data_ + i, v.data(), v.size())) {
+        if (!::memcmp(data_ + i, v.data(), v.size())) {
           return i;
         }
       }
@@ -263,7 +264,9 @@ class StringView {
    */
   size_type rfind(StringView v, size_type pos = npos) const KANON_NOEXCEPT
   {
-    if (!v.empty()) {
+    if (v.empty()) return std::min(len_, pos);
+
+    if (len_ != 0) {
       auto len = std::min(len_ - 1, pos);
 
       // Avoid --len == size_type(-1)
@@ -281,6 +284,7 @@ class StringView {
 
   size_type rfind(char c, size_type pos = npos) const KANON_NOEXCEPT
   {
+    if (len_ == 0) return npos;
     auto len = std::min(len_ - 1, pos);
     for (;; --len) {
       if (data_[len] == c) {
@@ -359,7 +363,7 @@ class StringView {
     if (KANON_UNLIKELY(len_ == 0)) return npos;
     auto i = std::min(len_ - 1, pos);
 
-    for (; i > 0;) {
+    for (;; --i) {
       if (charInRange(data_[i], v)) return i;
       if (i == 0) break;
     }
@@ -372,8 +376,8 @@ class StringView {
     if (KANON_UNLIKELY(len_ == 0)) return npos;
     auto i = std::min(len_ - 1, pos);
 
-    for (; i > 0; --i) {
-      if (data_[i] == c) return pos;
+    for (;; --i) {
+      if (data_[i] == c) return i;
       if (i == 0) break;
     }
 
@@ -403,7 +407,7 @@ class StringView {
     if (KANON_UNLIKELY(len_ == 0)) return npos;
     auto i = std::min(len_ - 1, pos);
 
-    for (; i > 0; --i) {
+    for (;; --i) {
       if (!charInRange(data_[i], v)) return i;
       if (i == 0) break;
     }
@@ -416,8 +420,8 @@ class StringView {
     if (KANON_UNLIKELY((len_ == 0))) return npos;
     auto i = std::min(len_ - 1, pos);
 
-    for (; i > 0; --i) {
-      if (data_[i] == c) return i;
+    for (;; --i) {
+      if (data_[i] != c) return i;
       if (i == 0) break;
     }
 
@@ -441,14 +445,7 @@ class StringView {
 
   int caseCompare(char c) const KANON_NOEXCEPT
   {
-    auto data_0 = ::toupper(data_[0]);
-    auto _c = ::toupper(c);
-
-    if (len_ < 1 || data_0 < _c) return -1;
-
-    if (data_0 > _c) return 1;
-
-    return (data_0 == c && len_ == 1) ? 0 : 1;
+    return caseCompare(StringView(&c, 1));
   }
 
   // lexicographic compare
@@ -468,11 +465,7 @@ class StringView {
 
   int compare(char c) const KANON_NOEXCEPT
   {
-    if (len_ < 1 || data_[0] < c) return -1;
-
-    if (data_[0] > c) return 1;
-
-    return (data_[0] == c && len_ == 1) ? 0 : 1;
+    return compare(StringView(&c, 1));
   }
 
   KANON_CORE_API std::vector<std::string> split(StringView spliter = " ") const;
-- 
2.43.0


From d693984afc2e1a2b53568a1f6008fac25a1c4873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:52 +0000
Subject: [PATCH 03/56] fix: lexical_cast rejects text that is not a complete
 in-range numeral; an empty optional converts to an empty optional

---
 kanon/string/lexical_cast.h | 57 ++++++++++++++++++++++++++-----------
 kanon/util/optional.h       | 10 ++++---
 2 files changed, 46 insertions(+), 21 deletions(-)

diff --git a/kanon/string/lexical_cast.h b/kanon/string/lexical_cast.h
index e0595f4..f2f44c2 100644
--- a/kanon/string/lexical_cast.h
+++ b/kanon/string/lexical_cast.h
@@ -1,8 +1,10 @@
 #ifndef KANON_LEXICAL_CAST_H
 #define KANON_LEXICAL_CAST_H
 
+#include <errno.h>
 #include <string.h>
 #include <string>
+#include <type_traits>
 
 #include "kanon/util/optional.h"
 #include "kanon/util/arithmetic_type.h"
@@ -55,6 +57,41 @@ DST_STRING_SPECIALIZATION(kanon::StringView);
 
 static char lexical_cvt_buf[64];
 
+namespace detail {
+
+// str[size] must be the null terminator.
+// The whole text must be consumed and the value must be representable in
+// Integer, otherwise the result is empty.
+template <typename Integer, typename Func>
+kanon::optional<Integer> ParseInteger(char const *str, size_t size, Func func)
+{
+  if (size == 0) return kanon::make_null_optional<Integer>();
+
+  char *endptr = nullptr;
+  const int saved_errno = errno;
+
+  errno = 0;
+  const auto value = func(str, &endptr, 10);
+  const bool out_of_range = errno == ERANGE;
+  errno = saved_errno;
+
+  if (out_of_range || endptr != str + size)
+    return kanon::make_null_optional<Integer>();
+
+  const auto ret = static_cast<Integer>(value);
+  if (static_cast<decltype(func(str, &endptr, 10))>(ret) != value)
+    return kanon::make_null_optional<Integer>();
+
+  // strtoul{l}() accepts a minus sign and wraps around
+  if (std::is_unsigned<Integer>::value && value != 0 &&
+      ::memchr(str, '-', size))
+    return kanon::make_null_optional<Integer>();
+
+  return kanon::optional<Integer>(ret);
+}
+
+} // namespace detail
+
 #define Str2Int(integer_type, str_type, func)                                  \
   template <>                                                                  \
   class LexicalCast<integer_type, str_type, false> {                           \
@@ -65,15 +102,8 @@ static char lexical_cvt_buf[64];
       ::strncpy(lexical_cvt_buf, src.data(), src.size());                      \
       lexical_cvt_buf[src.size()] = 0;                                         \
                                                                                \
-      char *endptr = nullptr;                                                  \
-                                                                               \
-      auto ret =                                                               \
-          static_cast<integer_type>(func(lexical_cvt_buf, &endptr, 10));       \
-      if (*endptr == 0) {                                                      \
-        return kanon::optional<integer_type>(ret);                             \
-      }                                                                        \
-                                                                               \
-      return kanon::make_null_optional<integer_type>();                        \
+      return detail::ParseInteger<integer_type>(lexical_cvt_buf, src.size(),    \
+                                                func);                         \
     }                                                                          \
   }
 
@@ -84,14 +114,7 @@ static char lexical_cvt_buf[64];
     static kanon::optional<integer_type> apply(str_type const &src)            \
     {                                                                          \
       if (src.size() > 63) return kanon::make_null_optional<integer_type>();   \
-      char *endptr = nullptr;                                                  \
-                                                                               \
-      auto ret = static_cast<integer_type>(func(src.c_str(), &endptr, 10));    \
-      if (*endptr == 0) {                                                      \
-        return kanon::optional<integer_type>(ret);                             \
-      }                                                                        \
-                                                                               \
-      return kanon::make_null_optional<integer_type>();                        \
+      return detail::ParseInteger<integer_type>(src.c_str(), src.size(), func); \
     }                                                                          \
   }
 
diff --git a/kanon/util/optional.h b/kanon/util/optional.h
index 67f7e77..2365c00 100644
--- a/kanon/util/optional.h
+++ b/kanon/util/optional.h
@@ -81,13 +81,14 @@ class optional {
   //
   template <typename U>
   optional(optional<U> const &other)
-    : opt_{Rep{other.has_value(), other.value()}}
+    : opt_{other.has_value() ? Rep{true, T(other.value())} : Rep{false, T{}}}
   {
   }
 
   template <typename U>
   optional(optional<U> &&other) KANON_NOEXCEPT
-    : opt_{Rep{other.has_value(), std::move(other.value())}}
+    : opt_{other.has_value() ? Rep{true, T(std::move(other.value()))}
+                             : Rep{false, T{}}}
   {
   }
 
@@ -97,7 +98,7 @@ class optional {
   template <typename U>
   optional &operator=(optional<U> const &other)
   {
-    opt_ = Rep{other.has_value(), other.value()};
+    opt_ = other.has_value() ? Rep{true, T(other.value())} : Rep{false, T{}};
 
     return *this;
   }
@@ -105,7 +106,8 @@ class optional {
   template <typename U>
   optional &operator=(optional<U> &&other) KANON_NOEXCEPT
   {
-    std::swap(opt_, other.opt_);
+    opt_ = other.has_value() ? Rep{true, T(std::move(other.value()))}
+                             : Rep{false, T{}};
 
     return *this;
   }
-- 
2.43.0


From e483545598d68341cebaceebccdcafdca32f5d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 04/56] fix: fixed-size text streams stay inside their storage
 and NUL-terminated

---
 kanon/string/fixed_buffer.h | 5 ++++-
 kanon/string/fmt_stream.h   | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/kanon/string/fixed_buffer.h b/kanon/string/fixed_buffer.h
index 105a06f..bd48c0e 100644
--- a/kanon/string/fixed_buffer.h
+++ b/kanon/string/fixed_buffer.h
@@ -36,6 +36,7 @@ class FixedBuffer {
   FixedBuffer()
     : len_(0)
   {
+    data_[0] = 0;
   }
 
   // prohibit modify througt data()
@@ -123,7 +124,7 @@ class FixedBuffer {
 
     if (!p && avali() > 6) {
       Append("(null)", 6);
-    } else if (avali() > 10) {
+    } else if (p && avali() > kMaxPtrSize) {
       cur[0] = '0';
       cur[1] = 'x';
 
@@ -142,6 +143,7 @@ class FixedBuffer {
   void reset() KANON_NOEXCEPT
   {
     len_ = 0;
+    data_[0] = 0;
   }
 
   void AdvanceRead(unsigned diff) KANON_NOEXCEPT
@@ -163,6 +165,7 @@ class FixedBuffer {
 
  private:
   static constexpr unsigned kMaxIntSize = 32;
+  static constexpr unsigned kMaxPtrSize = 2 + 16; // 0x + hex digits
   static constexpr unsigned kMaxFloatingSize = 324;
 
   char data_[SZ];
diff --git a/kanon/string/fmt_stream.h b/kanon/string/fmt_stream.h
index 878e595..5ec85ae 100644
--- a/kanon/string/fmt_stream.h
+++ b/kanon/string/fmt_stream.h
@@ -134,7 +134,7 @@ void FMT_STREAM_TEMPLATE::ParseAndSerializeSingle(StringView fmt, Arg arg,
   stream_.Append(fmt.data(), pos == StringView::npos ? fmt.size() : pos);
 
   if (pos < fmt.size()) {
-    if (fmt[pos + 1] == '%') {
+    if (pos + 1 < fmt.size() && fmt[pos + 1] == '%') {
       stream_.Append("%");
       ParseAndSerialize(fmt.substr(pos + 2), arg, args...);
     } else {
-- 
2.43.0


From 1162e57a04057d3186d61c0ead088aa4a5a9e2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 05/56] fix: TimeStamp unit arithmetic does not overflow int
 and ToString zero-pads the microseconds

---
 kanon/util/time_stamp.cc |  8 +++-----
 kanon/util/time_stamp.h  | 10 +++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/kanon/util/time_stamp.cc b/kanon/util/time_stamp.cc
index 815472c..3642264 100644
--- a/kanon/util/time_stamp.cc
+++ b/kanon/util/time_stamp.cc
@@ -22,7 +22,7 @@ std::string TimeStamp::ToString() const
 
   int64_t seconds = microseconds_ / kMicrosecondsPerSeconds_;
   int microseconds = static_cast<int>(microseconds_ % kMicrosecondsPerSeconds_);
-  snprintf(buf, sizeof buf, "%" PRId64 ".6%d", seconds, microseconds);
+  snprintf(buf, sizeof buf, "%" PRId64 ".%06d", seconds, microseconds);
 
   return buf;
 }
@@ -62,10 +62,8 @@ TimeStamp TimeStamp::FromTimeStr(char const *format, std::string const &rep,
   memset(&tm, 0, sizeof tm);
   // Must init
   if (!strptime(rep.c_str(), format, &tm)) {
-    if (ok) {
-      *ok = false;
-      return TimeStamp(0);
-    }
+    if (ok) *ok = false;
+    return TimeStamp(0);
   }
   time_t t = mktime(&tm);
   if (ok) *ok = true;
diff --git a/kanon/util/time_stamp.h b/kanon/util/time_stamp.h
index d2f8752..25a7c5c 100644
--- a/kanon/util/time_stamp.h
+++ b/kanon/util/time_stamp.h
@@ -14,31 +14,31 @@ class TimeStamp
   : equal_comparable<TimeStamp>
   , less_than_comparable<TimeStamp> {
   struct TimeUnitBase {
-    explicit TimeUnitBase(int c)
+    explicit TimeUnitBase(int64_t c)
       : count(c)
     {
     }
 
-    int count;
+    int64_t count;
   };
 
  public:
   struct MilliSecond : TimeUnitBase {
-    explicit MilliSecond(int c)
+    explicit MilliSecond(int64_t c)
       : TimeUnitBase(c)
     {
     }
   };
 
   struct Microsecond : TimeUnitBase {
-    explicit Microsecond(int c)
+    explicit Microsecond(int64_t c)
       : TimeUnitBase(c)
     {
     }
   };
 
   struct Second : TimeUnitBase {
-    explicit Second(int c)
+    explicit Second(int64_t c)
       : TimeUnitBase(c)
     {
     }
-- 
2.43.0


From 6d9d2f52a5dc37ec3a0d4b43ade43db683623bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 06/56] fix: asking an empty Any/UniqueAny for its type or
 value is safe

---
 kanon/util/any.h        | 5 ++++-
 kanon/util/unique_any.h | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/kanon/util/any.h b/kanon/util/any.h
index e05eb19..bdb13fe 100644
--- a/kanon/util/any.h
+++ b/kanon/util/any.h
@@ -96,7 +96,10 @@ class Any final {
     holder_ = nullptr;
   }
 
-  std::type_info const &type() const { return holder_->type(); }
+  std::type_info const &type() const
+  {
+    return empty() ? typeid(void) : holder_->type();
+  }
 
   void swap(Any &rhs) KANON_NOEXCEPT { std::swap(holder_, rhs.holder_); }
 
diff --git a/kanon/util/unique_any.h b/kanon/util/unique_any.h
index 058a7a0..635dcd9 100644
--- a/kanon/util/unique_any.h
+++ b/kanon/util/unique_any.h
@@ -65,7 +65,10 @@ class UniqueAny final {
     holder_ = nullptr;
   }
 
-  std::type_info const &type() const { return holder_->type(); }
+  std::type_info const &type() const
+  {
+    return empty() ? typeid(void) : holder_->type();
+  }
 
   void swap(UniqueAny &rhs) KANON_NOEXCEPT { std::swap(holder_, rhs.holder_); }
 
-- 
2.43.0


From 3aa2ad6d97b7d18b465d4f357f99234ebd143dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:33 +0000
Subject: [PATCH 07/56] fix: FmtStream substitutes a C string as its text, not
 as a pointer

---
 kanon/string/fmt_stream.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/kanon/string/fmt_stream.h b/kanon/string/fmt_stream.h
index 5ec85ae..3ba059a 100644
--- a/kanon/string/fmt_stream.h
+++ b/kanon/string/fmt_stream.h
@@ -71,6 +71,15 @@ class FmtStream {
     stream_.Append(s.data(), s.size());
   }
   void SerializeOne(StringView sv) KANON_NOEXCEPT { stream_.Append(sv); }
+  // Otherwise, the implicit conversion to void const * is better
+  void SerializeOne(char const *s) KANON_NOEXCEPT
+  {
+    stream_.Append(StringView(s));
+  }
+  void SerializeOne(std::nullptr_t) KANON_NOEXCEPT
+  {
+    stream_.appendPtr(nullptr);
+  }
 
   detail::FixedBuffer<SZ> stream_;
 };
-- 
2.43.0


From 4263742ebe6e97ea294c5dc9102c5518ca896452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 08/56] fix: forward list resize(n), counted assign, self
 assignment, range splice order, stable sort and size-aware equality

---
 kanon/algo/forward_list.h                   |  2 +-
 kanon/algo/forward_list/forward_list_impl.h | 22 ++++++++++-----------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/kanon/algo/forward_list.h b/kanon/algo/forward_list.h
index 96def31..104b1bf 100644
--- a/kanon/algo/forward_list.h
+++ b/kanon/algo/forward_list.h
@@ -182,7 +182,7 @@ class ForwardList : protected forward_list_detail::ForwardListBase<T, Alloc> {
 
   KANON_INLINE void resize(SizeType n)
   {
-    resize_impl<ValueType>(n, ValueType{});
+    resize_impl<ValueType>(n);
   }
   void resize(SizeType n, ValueType const &val);
 
diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index ee70a53..089242f 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -53,8 +53,8 @@ void FORWARD_LIST_TEMPLATE::assign(SizeType count, ValueType const &value)
     while (count--) {
       push_front(value);
     }
-  } else if (count < 0) {
-    // count < size()
+  } else {
+    // count <= size()
     while (beg.next() != end()) {
       erase_after(beg);
     }
@@ -89,7 +89,7 @@ void FORWARD_LIST_TEMPLATE::assign(InputIterator first, InputIterator last)
 FORWARD_LIST_TEMPLATE_LIST
 auto FORWARD_LIST_TEMPLATE::operator=(Self const &other) -> Self &
 {
-  assign(other.begin(), other.end());
+  if (this != &other) assign(other.begin(), other.end());
   return *this;
 }
 
@@ -294,7 +294,7 @@ FORWARD_LIST_TEMPLATE_LIST
 template <typename BinaryPred>
 void FORWARD_LIST_TEMPLATE::merge(Self &list, BinaryPred pred)
 {
-  if (list.empty()) return;
+  if (&list == this || list.empty()) return;
 
   BaseNode *beg = &header_;
   BaseNode *obeg = &list.header_;
@@ -335,6 +335,8 @@ void FORWARD_LIST_TEMPLATE::splice_after(ConstIterator pos, Self &list,
   // (first, last)
   while (first.next() != last) {
     insert_after(pos, list.extract_after(first));
+    // Keep the order
+    ++pos;
   }
 }
 
@@ -433,12 +435,10 @@ void FORWARD_LIST_TEMPLATE::sort(Compare cmp)
         break;
       } else {
         // Merge non-empty list
-        // larger list merge shorter list
-        if (lists[i].size() > list.size()) {
-          lists[i].merge(list, cmp);
-          list.swap(lists[i]);
-        } else
-          list.merge(lists[i], cmp);
+        // The elements of lists[i] precede the ones of list,
+        // it must be the target to keep the order of equivalent elements
+        lists[i].merge(list, cmp);
+        list.swap(lists[i]);
       }
     }
   }
@@ -529,7 +529,7 @@ FORWARD_LIST_TEMPLATE_LIST
 KANON_INLINE bool operator==(ForwardList<T, A> const &x,
                              ForwardList<T, A> const &y)
 {
-  return std::equal(x.begin(), x.end(), y.begin());
+  return x.size() == y.size() && std::equal(x.begin(), x.end(), y.begin());
 }
 
 FORWARD_LIST_TEMPLATE_LIST
-- 
2.43.0


From 4cc134bda12fdeb2b0d9792d89329cbcb5b87dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:10 +0000
Subject: [PATCH 09/56] fix: reserved array copy assignment to a smaller size
 and destruction of moved-from elements

---
 kanon/algo/reserved_array.h | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/kanon/algo/reserved_array.h b/kanon/algo/reserved_array.h
index 9d5a9b5..ed9cae4 100644
--- a/kanon/algo/reserved_array.h
+++ b/kanon/algo/reserved_array.h
@@ -272,6 +272,8 @@ class ReservedArray : protected Alloc {
       throw;
     }
 
+    // The moved-from elements must be destroyed also
+    zstl::DestroyRange(data_, end_);
     AllocTraits::deallocate(*this, data_, GetSize());
     data_ = new_data;
     end_ = new_end;
@@ -316,9 +318,7 @@ class ReservedArray : protected Alloc {
       throw;
     }
 
-    for (auto beg = data_ + n; beg != end_; ++beg) {
-      AllocTraits::destroy(*this, beg);
-    }
+    zstl::DestroyRange(data_, end_);
 
     AllocTraits::deallocate(*this, data_, GetSize());
 
@@ -351,20 +351,21 @@ class ReservedArray : protected Alloc {
   template <typename U, typename = zstl::enable_if_t<cond<U>::value>>
   void CopyAssignmentForSizeNotEqual(ReservedArray const &other)
   {
+    if (other.size() < size()) {
+      // The storage of the removed elements is gone after reallocate()
+      Shrink_impl<U>(other.size());
+      std::copy(other.begin(), other.end(), data_);
+      return;
+    }
+
     auto tmp = this->reallocate(data_, other.size());
 
     if (tmp == NULL) {
       throw std::bad_alloc{};
     }
 
-    if (other.size() > size()) {
-      std::copy(other.begin(), other.begin() + size(), tmp);
-      std::uninitialized_copy(other.begin() + size(), other.end(),
-                              tmp + size());
-    } else {
-      std::copy(other.begin(), other.end(), tmp);
-      zstl::DestroyRange(tmp + other.size(), tmp + size());
-    }
+    std::copy(other.begin(), other.begin() + size(), tmp);
+    std::uninitialized_copy(other.begin() + size(), other.end(), tmp + size());
 
     data_ = tmp;
     end_ = data_ + other.size();
-- 
2.43.0


From 67b6790a8deeb872535c443d4b4f03b2bbc61282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:39 +0000
Subject: [PATCH 10/56] fix: ChunkList counts its real bytes, clones its
 content, appends to an empty list and reserves enough space

---
 kanon/algo/forward_list.h  | 12 +++++++---
 kanon/buffer/chunk_list.cc | 45 ++++++++++++++------------------------
 kanon/buffer/chunk_list.h  | 12 +++++-----
 3 files changed, 31 insertions(+), 38 deletions(-)

diff --git a/kanon/algo/forward_list.h b/kanon/algo/forward_list.h
index 104b1bf..fdfed2a 100644
--- a/kanon/algo/forward_list.h
+++ b/kanon/algo/forward_list.h
@@ -486,12 +486,18 @@ class ForwardList : protected forward_list_detail::ForwardListBase<T, Alloc> {
    * destroy object ==> free memory(/deallocate)
    */
 
+  static constexpr size_t node_count(size_t sz) KANON_NOEXCEPT
+  {
+    return 1 + (sz + sizeof(Node) - 1) / sizeof(Node);
+  }
+
   // HACK method
   // 实现侵入式链表
   template <typename... Args>
   KANON_INLINE Node *create_node_size(size_t sz, Args &&...args)
   {
-    auto node = AllocTraits::allocate(*this, sizeof(Node) + sz);
+    // The unit of allocate() is Node instead of byte
+    auto node = AllocTraits::allocate(*this, node_count(sz));
 
     node->next = nullptr;
     AllocTraits::construct(*this, &node->val, std::forward<Args>(args)...);
@@ -509,14 +515,14 @@ class ForwardList : protected forward_list_detail::ForwardListBase<T, Alloc> {
   {
     auto node = static_cast<Node *>(_node);
     AllocTraits::destroy(*this, node);
-    AllocTraits::deallocate(*this, node, sizeof(Node));
+    AllocTraits::deallocate(*this, node, node_count(0));
   }
 
   KANON_INLINE void drop_node_size(BaseNode *_node, size_t sz)
   {
     auto node = static_cast<Node *>(_node);
     AllocTraits::destroy(*this, node);
-    AllocTraits::deallocate(*this, node, sizeof(Node) + sz);
+    AllocTraits::deallocate(*this, node, node_count(sz));
   }
 #ifdef FORWARD_LIST_DEBUG
   // For Debugging
diff --git a/kanon/buffer/chunk_list.cc b/kanon/buffer/chunk_list.cc
index 29fce37..52c502b 100644
--- a/kanon/buffer/chunk_list.cc
+++ b/kanon/buffer/chunk_list.cc
@@ -46,6 +46,7 @@ auto ChunkList::Prepend(void const *data, size_t len) -> void
 
 void ChunkList::Append(void const *data, size_t len)
 {
+  if (len == 0) return;
   auto buf = reinterpret_cast<char const *>(data);
 
   /* Allow user append data even though the size header
@@ -125,30 +126,10 @@ buffers_.size() > 0.
 
 auto ChunkList::GetReadableSize() const KANON_NOEXCEPT->SizeType
 {
-  if (IsEmpty()) {
-    return 0;
-  } else {
-    auto first_chunk = buffers_.begin();
-    if (buffers_.size() == 1) {
-      return first_chunk->GetReadableSize();
-    } else if (buffers_.size() == 2) {
-      return first_chunk->GetReadableSize() +
-             first_chunk.next()->GetReadableSize();
-    }
-
-    auto last_chunk = buffers_.before_end();
-    // return first_chunk->GetMaxSize() != 4096
-    //            ? first_chunk->GetReadableSize() +
-    //                  first_chunk.next()->GetReadableSize() +
-    //                  (GetChunkSize() - 3) * CHUNK_SIZE +
-    //                  last_chunk->GetReadableSize()
-    //            : first_chunk->GetReadableSize() +
-    //                  (GetChunkSize() - 2) * CHUNK_SIZE +
-    //                  last_chunk->GetReadableSize();
-    return first_chunk->GetReadableSize() +
-           first_chunk.next()->GetReadableSize() +
-           (GetChunkSize() - 3) * CHUNK_SIZE + last_chunk->GetReadableSize();
-  }
+  // The chunks in the middle may not be full(e.g. after AppendChunkList())
+  SizeType ret = 0;
+  for (auto const &chunk : buffers_) ret += chunk.GetReadableSize();
+  return ret;
 }
 
 bool ChunkList::PutToFreeChunk() KANON_NOEXCEPT
@@ -211,12 +192,18 @@ auto ChunkList::ReserveWriteSpace(size_t size) -> void
 {
   assert((CHUNK_SIZE & 0x1) == 0);
 
-  for (auto const &buffer : buffers_) {
-    if (size <= buffer.GetWritableSize()) return;
-    size -= buffer.GetWritableSize();
+  if (size == 0) return;
+
+  if (buffers_.empty()) {
+    // The first chunk reserves the space for prepend
+    size += sizeof(size_t);
+  } else {
+    // Append() fills the last chunk only
+    const size_t wsize = buffers_.before_end()->GetWritableSize();
+    if (size <= wsize) return;
+    size -= wsize;
   }
 
-  assert(size >= 1);
   const auto chunk_size = ((size - 1) >> 12) + 1;
   ReserveFreeChunk(chunk_size);
 }
@@ -232,7 +219,7 @@ auto ChunkList::GetFreeChunk() KANON_NOEXCEPT->ListType::Iterator
 
 auto ChunkList::AppendChunkList(ChunkList *rhs) -> void
 {
-  buffers_.splice_after(buffers_.end(), rhs->buffers_);
+  buffers_.splice_after(buffers_.cbefore_end(), rhs->buffers_);
 }
 
 auto ChunkList::DebugPrint() -> void
diff --git a/kanon/buffer/chunk_list.h b/kanon/buffer/chunk_list.h
index f19978b..5b1b0a2 100644
--- a/kanon/buffer/chunk_list.h
+++ b/kanon/buffer/chunk_list.h
@@ -178,19 +178,19 @@ class ChunkList final {
 
   // Explicit copy API to avoid implicit copy
 
-  ChunkList Clone()
+  ChunkList Clone() const
   {
     ChunkList ret;
-    new (&ret.buffers_) ListType(buffers_);
-    new (&ret.free_buffers_) ListType(free_buffers_);
+    // Copying the nodes don't copy the padding buffers behind them
+    for (auto const &chunk : buffers_) ret.Append(chunk.ToStringView());
     return ret;
   }
 
   void CopyAssign(ChunkList const &rhs)
   {
-    buffers_ = rhs.buffers_;
-    free_buffers_ = rhs.free_buffers_;
-    *this = rhs;
+    if (this == &rhs) return;
+    auto tmp = rhs.Clone();
+    swap(tmp);
   }
 
   // Disable implicit copy
-- 
2.43.0


From 46c46f53d696b49f6e31df5a1151fcf058c1e407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:39 +0000
Subject: [PATCH 11/56] fix: gathered writes report errors, respect IOV_MAX and
 stop at a short write

---
 kanon/linux/net/chunk_list.cc | 42 ++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/kanon/linux/net/chunk_list.cc b/kanon/linux/net/chunk_list.cc
index f8ef9f2..3820b50 100644
--- a/kanon/linux/net/chunk_list.cc
+++ b/kanon/linux/net/chunk_list.cc
@@ -12,42 +12,48 @@ static constexpr unsigned IOVEC_MAX = IOV_MAX;
 static constexpr unsigned IOVEC_MAX = 1024;
 #endif
 
-static size_t RoundUpDivideIn2(size_t x, size_t y) KANON_NOEXCEPT
-{
-  return (x == 0) ? 0 : ((x - 1) / y + 1);
-}
-
 ChunkList::SizeType kanon::ChunkListWriteFd(ChunkList &buffer, FdType fd,
                                             int &saved_errno) KANON_NOEXCEPT
 {
   if (buffer.GetChunkSize() == 1) {
     auto first_chunk = buffer.GetFirstChunk();
-    return (ChunkList::SizeType)sock::Write(
-        fd, buffer.GetFirstChunk()->GetReadBegin(),
-        first_chunk->GetReadableSize());
+    auto n = sock::Write(fd, first_chunk->GetReadBegin(),
+                         first_chunk->GetReadableSize());
+    if (n < 0) {
+      saved_errno = errno;
+      return 0;
+    }
+    return (ChunkList::SizeType)n;
   }
 
-  FixedVector<struct iovec> iovecs(buffer.GetChunkSize());
-  auto first_chunk = buffer.begin();
-  auto cnt = RoundUpDivideIn2(buffer.GetChunkSize(), IOVEC_MAX);
+  auto chunk = buffer.begin();
+  auto remaining = buffer.GetChunkSize();
 
   ChunkList::SizeType ret = 0;
 
-  while (cnt--) {
+  while (remaining > 0) {
+    // The kernel accepts IOVEC_MAX buffers in a call at most
+    FixedVector<struct iovec> iovecs(
+        remaining < IOVEC_MAX ? remaining : IOVEC_MAX);
+    size_t total = 0;
     for (auto &x : iovecs) {
-      x.iov_base = first_chunk->GetReadBegin();
-      x.iov_len = first_chunk->GetReadableSize();
-      ++first_chunk;
+      x.iov_base = chunk->GetReadBegin();
+      x.iov_len = chunk->GetReadableSize();
+      total += x.iov_len;
+      ++chunk;
     }
+    remaining -= iovecs.size();
 
     auto n = ::writev(fd, iovecs.data(), (int)iovecs.size());
 
-    if (n >= 0) {
-      ret += (ChunkList::SizeType)n;
-    } else {
+    if (n < 0) {
       saved_errno = errno;
       break;
     }
+
+    ret += (ChunkList::SizeType)n;
+    // Short write, the later chunks must not overtake the remaining bytes
+    if ((size_t)n < total) break;
   }
 
   return ret;
-- 
2.43.0


From 4917b65c7191f2bb4a2f0b41c1e7a34db957e736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:39 +0000
Subject: [PATCH 12/56] fix: connections keep unsent bytes and their order on
 would-block, send the FIN after the pending bytes, and close once

---
 .../linux/net/connection/connection_base.inl  | 146 +++++++-----------
 kanon/net/connection/connection_base.cc       |  71 +++++----
 kanon/net/connection/connection_base.h        |   1 +
 3 files changed, 101 insertions(+), 117 deletions(-)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index 0435bc0..eb53f94 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -6,6 +6,10 @@ template <typename D>
 void ConnectionBase<D>::HandleRead(TimeStamp recv_time)
 {
   loop_->AssertInThread();
+
+  // HandleClose() has been called in the same dispatch
+  if (state_ == kDisconnected) return;
+
   if (loop_->IsEdgeTriggerMode()) {
     HandleEtRead(recv_time);
   } else {
@@ -38,53 +42,49 @@ void ConnectionBase<D>::HandleWrite()
 template <typename D>
 void ConnectionBase<D>::SendInLoopForBuf(InputBuffer &buffer)
 {
-  LOG_TRACE_KANON << "Connection: [" << name_
-                  << "], fd = " << channel_->GetFd();
+  SendInLoop(buffer.ToStringView());
+}
+
+template <typename D>
+void ConnectionBase<D>::SendInLoopForChunkList(OutputBuffer &buffer)
+{
+  /* Fix 1.7.5
+   * In the formal implementation of this function is ill-formed.
+   * It is should be allowed for user to call this when output_buffer_ is not
+   * empty.
+   */
+
+  // KANON_ASSERT(
+  //     !output_buffer_.HasReadable(),
+  //     "The Send() for ChunkList must be called when output_buffer_ is
+  //     empty");
 
   if (state_ != kConnected) {
-    LOG_WARN_KANON << "This connection[" << name_
+    LOG_WARN_KANON << "This connection [" << name_
                    << "] is not connected, don't send any message";
     return;
   }
 
-  // if (!channel_->IsWriting() && !output_buffer_.HasReadable()) {
   if (!output_buffer_.HasReadable()) {
-    // output_buffer_.swap(buffer);
-
-    // auto n = sock::Write(
-    //   channel_->GetFd(),
-    //   output_buffer_.ToStringView().data(),
-    //   output_buffer_.GetReadableSize());
-
-    output_buffer_.Append(buffer.ToStringView());
     int saved_errno = 0;
-    auto n = ChunkListWriteFd(output_buffer_, channel_->GetFd(), saved_errno);
+    auto write_n = ChunkListWriteFd(buffer, channel_->GetFd(), saved_errno);
 
     if (saved_errno && saved_errno != EAGAIN) {
+      errno = saved_errno;
       LOG_SYSERROR_KANON << "write unexpected error occurred";
+      return;
     }
 
-    if (n > 0) {
-      LOG_TRACE_KANON << "Write length = " << n;
-      output_buffer_.AdvanceRead(n);
-      if (output_buffer_.HasReadable()) {
-#ifdef PRINT_REMAIN
-        LOG_TRACE_KANON << "Remaining length = "
-                        << output_buffer_.GetReadableSize();
-#endif
-
-        if (output_buffer_.GetReadableSize() >= high_water_mark_ &&
-            high_water_mark_callback_)
-        {
-          loop_->QueueToLoop(std::bind(high_water_mark_callback_,
-                                       this->shared_from_this(),
-                                       output_buffer_.GetReadableSize()));
-        }
-        channel_->EnableWriting();
-      } else {
+    if (write_n > 0) {
+      LOG_DEBUG_KANON << "Write " << write_n << " bytes";
+      buffer.AdvanceRead(write_n);
+
+      if (!buffer.HasReadable()) {
+        LOG_DEBUG_KANON << "Write complete";
         if (write_complete_callback_) {
           loop_->QueueToLoop(
-              std::bind(write_complete_callback_, this->shared_from_this()));
+              std::bind(&ConnectionBase::CallWriteCompleteCallback,
+                        this->shared_from_this()));
         }
 
         if (channel_->IsWriting()) {
@@ -92,64 +92,29 @@ void ConnectionBase<D>::SendInLoopForBuf(InputBuffer &buffer)
         }
       }
     }
-  } else {
-    SendInLoop(buffer.ToStringView());
   }
-}
 
-template <typename D>
-void ConnectionBase<D>::SendInLoopForChunkList(OutputBuffer &buffer)
-{
-  /* Fix 1.7.5
-   * In the formal implementation of this function is ill-formed.
-   * It is should be allowed for user to call this when output_buffer_ is not
-   * empty.
-   */
-
-  // KANON_ASSERT(
-  //     !output_buffer_.HasReadable(),
-  //     "The Send() for ChunkList must be called when output_buffer_ is
-  //     empty");
-
-  int saved_errno = 0;
-  auto write_n = ChunkListWriteFd(buffer, channel_->GetFd(), saved_errno);
-
-  if (saved_errno && saved_errno != EAGAIN) {
-    LOG_SYSERROR_KANON << "write unexpected error occurred";
-  }
-
-  if (write_n > 0) {
-    LOG_DEBUG_KANON << "Write " << write_n << " bytes";
-    buffer.AdvanceRead(write_n);
-
-    if (buffer.HasReadable()) {
-      if (high_water_mark_callback_ &&
-          buffer.GetReadableSize() > high_water_mark_)
-      {
-        loop_->QueueToLoop(std::bind(high_water_mark_callback_,
-                                     this->shared_from_this(),
-                                     high_water_mark_));
-      }
+  auto remaining = buffer.GetReadableSize();
+  if (remaining > 0) {
+    auto readable_len = output_buffer_.GetReadableSize();
+    if (high_water_mark_callback_ &&
+        readable_len + remaining >= high_water_mark_ &&
+        readable_len < high_water_mark_)
+    {
+      loop_->QueueToLoop(std::bind(high_water_mark_callback_,
+                                   this->shared_from_this(),
+                                   readable_len + remaining));
+    }
 
-#if 1
-      if (output_buffer_.HasReadable()) {
-        output_buffer_.AppendChunkList(&buffer);
-      } else {
-        output_buffer_.swap(buffer);
-      }
-#else
-      output_buffer_.swap(buffer);
-#endif
+    // Don't overtake the pending messages
+    if (output_buffer_.HasReadable()) {
+      output_buffer_.AppendChunkList(&buffer);
     } else {
-      LOG_DEBUG_KANON << "Write complete";
-      if (write_complete_callback_) {
-        loop_->QueueToLoop(std::bind(&ConnectionBase::CallWriteCompleteCallback,
-                                     this->shared_from_this()));
-      }
+      output_buffer_.swap(buffer);
+    }
 
-      if (channel_->IsWriting()) {
-        channel_->DisableWriting();
-      }
+    if (!channel_->IsWriting()) {
+      channel_->EnableWriting();
     }
   }
 }
@@ -246,7 +211,8 @@ void ConnectionBase<D>::SendInLoop(void const *data, size_t len)
       } else {
         if (write_complete_callback_) {
           loop_->QueueToLoop(
-              std::bind(write_complete_callback_, this->shared_from_this()));
+              std::bind(&ConnectionBase<D>::CallWriteCompleteCallback,
+                        this->shared_from_this()));
         }
 
         if (channel_->IsWriting()) {
@@ -257,9 +223,13 @@ void ConnectionBase<D>::SendInLoop(void const *data, size_t len)
         return;
       }
     } else {
-      if (errno != EAGAIN) // EWOULDBLOCK
+      if (errno != EAGAIN) { // EWOULDBLOCK
         LOG_SYSERROR_KANON << "write unexpected error occurred";
-      return;
+        return;
+      }
+
+      // The kernel buffer is full, cache the entire message
+      n = 0;
     }
   }
 
diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index 103e481..c5676a1 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -77,7 +77,8 @@ void ConnectionBase<D>::ConnectionDestroyed()
                   << " destoryed";
   // This may be called by TcpServer dtor or close_callback_(see TcpServer)
   // if close_callback_ has be called, just remove channel;
-  if (state_ == kConnected) {
+  // or the close is in progress(see ShutdownWrite() and ForceClose())
+  if (state_ == kConnected || state_ == kDisconnecting) {
     channel_->DisableAll();
     state_ = kDisconnected;
 
@@ -154,17 +155,18 @@ void ConnectionBase<D>::HandleEtRead(TimeStamp recv_time)
   //    then call HandleClose() since this is passive close
   int saved_errno = 0;
 
-  for (;;) {
+  // The callback may close this connection
+  while (state_ != kDisconnected) {
     auto readn =
         BufferReadFromFd(input_buffer_, channel_->GetFd(), saved_errno);
 
     if (saved_errno != 0) {
       if (saved_errno != EAGAIN) {
+        errno = saved_errno;
         LOG_SYSERROR_KANON << "Read event handle error";
         HandleError();
-      } else {
-        break;
       }
+      break;
     }
 
     LOG_DEBUG_KANON << "Read " << readn << " bytes from [Connection: " << name_
@@ -210,6 +212,7 @@ void ConnectionBase<D>::HandleLtWrite()
                   << ", fd: " << channel_->GetFd() << "]";
 
   if (saved_errno && saved_errno != EAGAIN) {
+    errno = saved_errno;
     LOG_SYSERROR_KANON << "Write event handle error";
     HandleError();
   }
@@ -254,7 +257,7 @@ void ConnectionBase<D>::HandleLtWrite()
       // need write(channel_->IsWriting()) to kernel space, delay the shutdown()
       // to here
       if (state_ == kDisconnecting) {
-        ShutdownWrite();
+        socket_->ShutdownWrite();
       }
     }
   }
@@ -263,10 +266,14 @@ void ConnectionBase<D>::HandleLtWrite()
 template <typename D>
 void ConnectionBase<D>::CallWriteCompleteCallback()
 {
+  // The connection may be closed before the phase 3
+  if (state_ == kDisconnected) return;
+
   if (write_complete_callback_(this->shared_from_this())) {
     LOG_TRACE_KANON << "Last chunk in the pipeline write";
     // The write_complete_callback_ maybe disable writing in the SendInLoop()
-    if (channel_->IsWriting()) {
+    // or leave the message to the output_buffer_
+    if (channel_->IsWriting() && !output_buffer_.HasReadable()) {
       channel_->DisableWriting();
     }
   } else {
@@ -281,29 +288,25 @@ void ConnectionBase<D>::HandleEtWrite()
   // The event occurred only in the:
   // 1. buffer high-watermark to low-watermark(writable)
 
-  while (true) {
-    // auto writen = sock::Write(
-    // channel_->GetFd(),
-    // output_buffer_.GetReadBegin(),
-    // output_buffer_.GetReadableSize());
+  // The completion has been processed already
+  if (!output_buffer_.HasReadable()) return;
 
+  while (output_buffer_.HasReadable()) {
     int saved_errno = 0;
     auto writen =
         ChunkListWriteFd(output_buffer_, channel_->GetFd(), saved_errno);
 
-    if (saved_errno) {
-      if (saved_errno != EAGAIN) {
-        LOG_SYSERROR_KANON << "Write event handle error";
-        HandleError();
-      }
-    }
-
     LOG_TRACE_KANON << "Write " << writen << " bytes to [Connection: " << name_
                     << ", fd: " << channel_->GetFd() << "]";
 
     output_buffer_.AdvanceRead(writen);
 
-    if (!output_buffer_.HasReadable() && saved_errno == EAGAIN) {
+    if (saved_errno) {
+      if (saved_errno != EAGAIN) {
+        errno = saved_errno;
+        LOG_SYSERROR_KANON << "Write event handle error";
+        HandleError();
+      }
       break;
     }
   }
@@ -342,6 +345,9 @@ template <typename D>
 void ConnectionBase<D>::HandleClose()
 {
   loop_->AssertInThread();
+  // The peer and ForceClose() may close it both
+  if (state_ == kDisconnected) return;
+
   // Connected ==> read event handling
   // Disconnecting ==> call ForceClose()
   assert(state_ == kConnected || state_ == kDisconnecting);
@@ -369,17 +375,24 @@ template <typename D>
 void ConnectionBase<D>::ShutdownWrite() KANON_NOEXCEPT
 {
   if (state_ == kConnected) {
-    state_ = kDisconnecting;
+    // Change the state in loop, otherwise, the messages queued by Send() of
+    // other threads before will be discarded
+    loop_->RunInLoop(std::bind(&ConnectionBase<D>::ShutdownWriteInLoop,
+                               this->shared_from_this()));
+  }
+}
 
-    // Pass raw pointer is safe.
-    loop_->RunInLoop([this]() {
-      // If channel is writing state, we need write all message to
-      // the buffer in kernel space, in case peer half-close can
-      // also receive message
-      if (!channel_->IsWriting() || loop_->IsEdgeTriggerMode()) {
-        socket_->ShutdownWrite();
-      }
-    });
+template <typename D>
+void ConnectionBase<D>::ShutdownWriteInLoop()
+{
+  if (state_ != kConnected) return;
+  state_ = kDisconnecting;
+
+  // If there are pending messages, we need write all of them to
+  // the buffer in kernel space, in case peer half-close can
+  // also receive message
+  if (!output_buffer_.HasReadable()) {
+    socket_->ShutdownWrite();
   }
 }
 
diff --git a/kanon/net/connection/connection_base.h b/kanon/net/connection/connection_base.h
index e25cac7..76722be 100644
--- a/kanon/net/connection/connection_base.h
+++ b/kanon/net/connection/connection_base.h
@@ -237,6 +237,7 @@ class ConnectionBase
   void HandleClose();
 
   void CallWriteCompleteCallback();
+  void ShutdownWriteInLoop();
   void SendInLoop(void const *data, size_t len);
   void SendInLoop(StringView data);
   void SendInLoopForStr(std::string &data);
-- 
2.43.0


From c1d3390ee62785bc8ff1e4fab474dc17552592f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:39 +0000
Subject: [PATCH 13/56] fix: channels without interest are really unregistered
 and can be registered again

---
 kanon/linux/net/epoller.cc |  5 +++++
 kanon/linux/net/poller.cc  | 20 +++++++++++---------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/kanon/linux/net/epoller.cc b/kanon/linux/net/epoller.cc
index 88f5c2b..80b0a11 100644
--- a/kanon/linux/net/epoller.cc
+++ b/kanon/linux/net/epoller.cc
@@ -102,8 +102,13 @@ void Epoller::UpdateChannel(Channel *ch)
   int index = ch->GetIndex();
 
   if (index == kNew) {
+    if (ch->IsNoneEvent()) return;
     UpdateEpollEvent(EPOLL_CTL_ADD, ch);
     ch->SetIndex(kAdded);
+  } else if (ch->IsNoneEvent()) {
+    // The kernel always reports EPOLLERR and EPOLLHUP if the fd is registered
+    UpdateEpollEvent(EPOLL_CTL_DEL, ch);
+    ch->SetIndex(kNew);
   } else { // ch->GetIndex() = kAdded
     UpdateEpollEvent(EPOLL_CTL_MOD, ch);
   }
diff --git a/kanon/linux/net/poller.cc b/kanon/linux/net/poller.cc
index 721fd45..a11311c 100644
--- a/kanon/linux/net/poller.cc
+++ b/kanon/linux/net/poller.cc
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <assert.h>
+#include <errno.h>
 
 #include "kanon/log/logger.h"
 #include "kanon/net/event_loop.h"
@@ -25,6 +26,7 @@ TimeStamp Poller::Poll(int ms, ChannelVec &active_channels) KANON_NOEXCEPT
   AssertInThread();
 
   auto ret = ::poll(pollfds_.data(), static_cast<nfds_t>(pollfds_.size()), ms);
+  int saved_errno = errno;
 
   TimeStamp now{TimeStamp::Now()};
 
@@ -54,7 +56,8 @@ TimeStamp Poller::Poll(int ms, ChannelVec &active_channels) KANON_NOEXCEPT
   } else if (ret == 0) {
     LOG_TRACE_KANON << "none events are ready";
   } else {
-    if (ret != EINTR) {
+    if (saved_errno != EINTR) {
+      errno = saved_errno;
       LOG_SYSERROR_KANON << "Poll() error occurred";
     }
   }
@@ -91,14 +94,11 @@ void Poller::UpdateChannel(Channel *ch)
     assert(it->second == ch);
 
     auto index = ch->GetIndex();
-    assert(index != -1 && index <= static_cast<int>(pollfds_.size()));
+    assert(index != -1 && index < static_cast<int>(pollfds_.size()));
     auto &now_pollfd = pollfds_[index];
 
-    assert(now_pollfd.fd == ch->GetFd());
-
-    if (ch->IsNoneEvent()) {
-      now_pollfd.fd = -now_pollfd.fd - 1;
-    }
+    // The fd is ignored by poll() if it is negative
+    now_pollfd.fd = ch->IsNoneEvent() ? -ch->GetFd() - 1 : ch->GetFd();
 
     now_pollfd.events = static_cast<short>(ch->GetEvents());
     now_pollfd.revents = 0;
@@ -112,9 +112,9 @@ void Poller::RemoveChannel(Channel *ch)
   auto it = channels_map_.find(ch->GetFd());
 
   if (it != channels_map_.end()) {
-    auto channel = it->second;
+    assert(it->second == ch);
 
-    if (channel->GetFd() == pollfds_.back().fd) {
+    if (ch->GetIndex() == static_cast<int>(pollfds_.size()) - 1) {
       // ch is the last pollfd
       // just pop back
       pollfds_.pop_back();
@@ -148,6 +148,8 @@ void Poller::RemoveChannel(Channel *ch)
       channels_map_[back_fd]->SetIndex(index);
     }
 
+    // Then, we can add it again
+    ch->SetIndex(-1);
     channels_map_.erase(it);
   }
 }
-- 
2.43.0


From 005f418e8e70c6e016a567e2d3af69d353add66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:39 +0000
Subject: [PATCH 14/56] fix: cancelling a timer never touches freed timers and
 is effective in the current round

---
 kanon/linux/net/timer/timer_queue.cc | 39 ++++++++++++++++++----------
 kanon/linux/net/timer/timer_queue.h  |  8 ++++--
 2 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/kanon/linux/net/timer/timer_queue.cc b/kanon/linux/net/timer/timer_queue.cc
index 8bd68c6..d9ce7f9 100644
--- a/kanon/linux/net/timer/timer_queue.cc
+++ b/kanon/linux/net/timer/timer_queue.cc
@@ -3,6 +3,8 @@
 #include <unistd.h>
 #include <sys/timerfd.h>
 
+#include <algorithm>
+
 #include "kanon/net/callback.h"
 #include "kanon/net/event_loop.h"
 #include "kanon/log/logger.h"
@@ -134,6 +136,8 @@ TimerId TimerQueue::AddTimer(Timer::TimerCallback cb, TimeStamp time,
                              double interval)
 {
   Timer *timer = new Timer(std::move(cb), time, interval);
+  // The timer may have fired and be freed when RunInLoop() returns
+  const TimerId id(timer);
   loop_->RunInLoop([this, timer]() {
     loop_->AssertInThread();
 
@@ -144,7 +148,7 @@ TimerId TimerQueue::AddTimer(Timer::TimerCallback cb, TimeStamp time,
     }
   });
 
-  return timer;
+  return id;
 }
 
 void TimerQueue::CancelTimer(TimerId id)
@@ -154,12 +158,16 @@ void TimerQueue::CancelTimer(TimerId id)
   loop_->RunInLoop([this, id]() {
     loop_->AssertInThread();
 
-    const auto active_timer_iter = timers_.find({id.timer_, id.seq_});
+    // The timer may have been freed, don't dereference it(i.e. call find())
+    const auto active_timer_iter = std::find(
+        timers_.begin(), timers_.end(), TimerSetValue{id.timer_, id.seq_});
 
     if (timers_.end() != active_timer_iter) {
+      const auto timer = active_timer_iter->first;
       timers_.erase(active_timer_iter);
+      delete timer;
     } else if (calling_timer_) {
-      // Self-cancel
+      // Self-cancel or cancel the other expired timer
       // \see ProcessAllExpiredTimers()
       canceling_timers_.emplace(id.timer_, id.seq_);
     }
@@ -182,6 +190,12 @@ bool TimerQueue::Emplace(Timer *timer)
   return ret;
 }
 
+bool TimerQueue::IsCanceling(Timer *timer) const
+{
+  return canceling_timers_.find({timer, timer->sequence()}) !=
+         canceling_timers_.end();
+}
+
 void TimerQueue::ProcessAllExpiredTimers(TimeStamp recv_time)
 {
   KANON_UNUSED(recv_time);
@@ -207,6 +221,9 @@ void TimerQueue::ProcessAllExpiredTimers(TimeStamp recv_time)
   calling_timer_ = true;
 
   for (auto const &timer : expired_timers) {
+    // Canceled by the callback of other timer
+    if (IsCanceling(timer)) continue;
+
     try {
       timer->run();
     }
@@ -263,16 +280,12 @@ void TimerQueue::ResetTimers(TimerVector &expireds, TimeStamp now)
   Timer *next_expire{nullptr};
 
   for (auto &timer : expireds) {
-    if (timer->repeat()) {
-      // If timer is repeat, we should restart it
-      // but if it in such case as self-cancel,
-      // we shouldn't restart it and do nothing.
-      if (canceling_timers_.find({timer, timer->sequence()}) ==
-          canceling_timers_.end())
-      {
-        timer->restart(now);
-        Emplace(timer);
-      }
+    // If timer is repeat, we should restart it
+    // but if it in such case as self-cancel,
+    // we shouldn't restart it.
+    if (timer->repeat() && !IsCanceling(timer)) {
+      timer->restart(now);
+      Emplace(timer);
     } else {
       delete timer;
     }
diff --git a/kanon/linux/net/timer/timer_queue.h b/kanon/linux/net/timer/timer_queue.h
index 909db52..6d1c11d 100644
--- a/kanon/linux/net/timer/timer_queue.h
+++ b/kanon/linux/net/timer/timer_queue.h
@@ -97,6 +97,9 @@ class TimerQueue : public ITimerQueuePlatform {
   /** Helper of AddTimer() */
   bool Emplace(Timer *timer);
 
+  /** Whether the timer is canceled in the calling of expired timers */
+  bool IsCanceling(Timer *timer) const;
+
   /** The read callback of timerfd */
   void ProcessAllExpiredTimers(TimeStamp recv_time);
 
@@ -181,8 +184,9 @@ class TimerQueue : public ITimerQueuePlatform {
   struct TimerEntryHash {
     KANON_INLINE uint64_t operator()(TimerEntry const &x) const KANON_NOEXCEPT
     {
-      return XXH64(&x.first, sizeof x.first, time(NULL)) ^
-             (XXH64(&x.second, sizeof x.second, time(NULL)) << 1);
+      // The seed must be fixed, otherwise, the key can't be found later
+      return XXH64(&x.first, sizeof x.first, 0) ^
+             (XXH64(&x.second, sizeof x.second, 0) << 1);
     }
   };
 
-- 
2.43.0


From d156b2e386ab4bc5271d19305ce73a3238dbded6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:39 +0000
Subject: [PATCH 15/56] fix: a functor queued before the loop starts does not
 wait for an event

---
 kanon/net/event_loop.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index fdbd520..4e694dc 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -225,7 +225,9 @@ void EventLoop::QueueToLoop(FunctorCallback cb)
   // ConnectionCallback) then WriteCompleteCallback continue write and register
   // it if not complete, but this is in the phase3, if we don't Wakeup(), the
   // next loop must be blocked. \see example/file_transfer/client.cc
-  if (!IsLoopInThread() || calling_functors_) {
+  //
+  // If the loop doesn't start in this thread, the first poll will block also.
+  if (!IsLoopInThread() || calling_functors_ || !looping_) {
     Wakeup();
   }
 }
-- 
2.43.0


From 9f08d4ba27848c4cf7cf67df3815dccf3734f66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 16/56] fix: a writable event after the pending bytes were sent
 in the same round is ignored

---
 kanon/linux/net/connection/connection_base.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index eb53f94..0e3f0c6 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -26,9 +26,9 @@ void ConnectionBase<D>::HandleWrite()
   // 1. HandleClose() call DisableAll()
   // 2. ConnectionDestoryed() is called when connection is active
   //    (e.g. TcpServer desctroyed)
+  // OR a Send() in the message callback of this round has disabled writing
   if (!channel_->IsWriting()) {
-    assert(state_ == kDisconnected);
-    LOG_TRACE_KANON << "This Connection: " << name_ << " is down";
+    LOG_TRACE_KANON << "This Connection: " << name_ << " has nothing to write";
     return;
   }
 
-- 
2.43.0


From caef5bacbe87773a3ddf0379ea01b3f6f85e3376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 17/56] fix: Poller doesn't register a channel that is
 interested in nothing

---
 kanon/linux/net/poller.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kanon/linux/net/poller.cc b/kanon/linux/net/poller.cc
index a11311c..83c63e5 100644
--- a/kanon/linux/net/poller.cc
+++ b/kanon/linux/net/poller.cc
@@ -72,6 +72,9 @@ void Poller::UpdateChannel(Channel *ch)
   auto it = channels_map_.find(ch->GetFd());
 
   if (it == channels_map_.end()) {
+    // Nothing to monitor
+    if (ch->IsNoneEvent()) return;
+
     // not exist, to create a new channel in channelMap
     assert(ch->GetIndex() == -1);
     // use hint version of insert is better
-- 
2.43.0


From 0686c696f501e59a502f472822cd1b7daf89d239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:56 +0000
Subject: [PATCH 18/56] fix: the holder of a mutex is recorded only while the
 mutex is held

---
 kanon/thread/mutex_lock.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kanon/thread/mutex_lock.h b/kanon/thread/mutex_lock.h
index 72496f8..c2e13e2 100644
--- a/kanon/thread/mutex_lock.h
+++ b/kanon/thread/mutex_lock.h
@@ -87,6 +87,7 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
 
  public:
   MutexLock()
+    : holder_(0)
   {
 #ifdef KANON_ON_UNIX
     TCHECK(pthread_mutex_init(&mutex_, NULL));
@@ -106,12 +107,12 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
 
   void Lock() ACQUIRE()
   {
-    assignHolder();
 #ifdef KANON_ON_UNIX
     TCHECK(pthread_mutex_lock(&mutex_));
 #else
     mutex_.lock();
 #endif
+    assignHolder();
   }
 
   /**
@@ -132,18 +133,18 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
 #else
     success = mutex_.try_lock();
 #endif
-    if (success) unassignHolder();
+    if (success) assignHolder();
     return success;
   }
 
   void Unlock() RELEASE()
   {
+    unassignHolder();
 #ifdef KANON_ON_UNIX
     TCHECK(pthread_mutex_unlock(&mutex_));
 #else
     mutex_.unlock();
 #endif
-    unassignHolder();
   }
 
   // TODO Implement this
-- 
2.43.0


From c9df53d1993d0f46bb0cdc0c6484930ac247cc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:12 +0000
Subject: [PATCH 19/56] fix: a count down latch survives spurious wake-ups and
 every way to reach zero

---
 kanon/thread/count_down_latch.h | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/kanon/thread/count_down_latch.h b/kanon/thread/count_down_latch.h
index 6d26b77..bf02108 100644
--- a/kanon/thread/count_down_latch.h
+++ b/kanon/thread/count_down_latch.h
@@ -30,13 +30,15 @@ class CountDownLatch : noncopyable {
   {
     MutexGuard guard(mutex_);
     count_ = count;
+    NotifyIfZero();
   }
 
   void ResetAndWait(int count) KANON_NOEXCEPT
   {
     MutexGuard guard(mutex_);
     count_ = count;
-    if (count_ > 0) cond_.Wait();
+    NotifyIfZero();
+    WaitForZero();
   }
 
   void Add(int count) KANON_NOEXCEPT
@@ -49,7 +51,7 @@ class CountDownLatch : noncopyable {
   {
     MutexGuard guard(mutex_);
     count_ += count;
-    if (count_ > 0) cond_.Wait();
+    WaitForZero();
   }
 
   void Incr() KANON_NOEXCEPT
@@ -62,19 +64,21 @@ class CountDownLatch : noncopyable {
   {
     MutexGuard guard(mutex_);
     ++count_;
-    if (count_ > 0) cond_.Wait();
+    WaitForZero();
   }
 
   KANON_DEPRECATED_ATTR void Minus(int count) KANON_NOEXCEPT
   {
     MutexGuard guard(mutex_);
     count_ -= count;
+    NotifyIfZero();
   }
 
   KANON_DEPRECATED_ATTR void Decr() KANON_NOEXCEPT
   {
     MutexGuard guard(mutex_);
     --count_;
+    NotifyIfZero();
   }
 
   int GetCount() const KANON_NOEXCEPT
@@ -86,19 +90,30 @@ class CountDownLatch : noncopyable {
   void Wait()
   {
     MutexGuard guard(mutex_);
-    if (count_ > 0) cond_.Wait();
+    WaitForZero();
   }
 
   void Countdown() KANON_NOEXCEPT
   {
     MutexGuard guard(mutex_);
     --count_;
-    if (count_ == 0) {
-      cond_.NotifyAll();
-    }
+    NotifyIfZero();
   }
 
  private:
+  void NotifyIfZero() KANON_NOEXCEPT
+  {
+    if (count_ <= 0) cond_.NotifyAll();
+  }
+
+  // The condition may wake up spuriously
+  void WaitForZero()
+  {
+    while (count_ > 0) {
+      cond_.Wait();
+    }
+  }
+
   int count_;
   mutable MutexLock mutex_;
   Condition cond_ GUARDED_BY(mutex_);
-- 
2.43.0


From eec4bd2dc25a6268294c88f953829edc412d0b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:31 +0000
Subject: [PATCH 20/56] fix: the workers of a thread pool keep running tasks
 until the pool is destroyed

---
 kanon/thread/thread_pool.cc | 24 +++++++++++++++++-------
 kanon/thread/thread_pool.h  |  8 ++++++--
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/kanon/thread/thread_pool.cc b/kanon/thread/thread_pool.cc
index 556529e..5f789f9 100644
--- a/kanon/thread/thread_pool.cc
+++ b/kanon/thread/thread_pool.cc
@@ -10,10 +10,17 @@ ThreadPool::ThreadPool(int max_queue_size,
   , not_full_{ mutex_ }
   , not_empty_{ mutex_ }
   , max_queue_size_{ max_queue_size }
+  , quit_{ false }
   , name_{ name }
 { }
 
 ThreadPool::~ThreadPool() KANON_NOEXCEPT {
+  {
+    MutexGuard guard{ mutex_ };
+    quit_ = true;
+    not_empty_.NotifyAll();
+  }
+
   for (auto& thr : threads_) {
     thr->Join();
   }
@@ -24,11 +31,13 @@ void ThreadPool::StartRun(int thread_num) {
 
   for (int i = 0; i != thread_num; ++i) {
     auto up_thr = kanon::make_unique<Thread>([this]() {
-      auto task = Pop();
+      Task task;
 
-      if (task) {
+      while (Pop(task)) {
         // Exception is handled by Thread
-        task();
+        if (task) task();
+        // Release the resources of the task before waiting
+        task = nullptr;
       }
     }, name_ + std::to_string(i));
     
@@ -41,7 +50,7 @@ void ThreadPool::StartRun(int thread_num) {
 void ThreadPool::Push(Task task) {
   MutexGuard guard{ mutex_ };
 
-  while (static_cast<int>(tasks_.size()) == max_queue_size_) {
+  while (static_cast<int>(tasks_.size()) >= max_queue_size_) {
     not_full_.Wait();
   }
 
@@ -49,17 +58,18 @@ void ThreadPool::Push(Task task) {
   not_empty_.Notify();
 }
 
-auto ThreadPool::Pop() -> Task
+bool ThreadPool::Pop(Task &task)
 {
   MutexGuard guard{ mutex_ };
 
   while (tasks_.size() == 0) {
+    if (quit_) return false;
     not_empty_.Wait();
   }
 
-  auto task = std::move(tasks_.front());
+  task = std::move(tasks_.front());
   tasks_.pop();
 
   not_full_.Notify();
-  return task;
+  return true;
 }
diff --git a/kanon/thread/thread_pool.h b/kanon/thread/thread_pool.h
index 6a85d64..e09c26f 100644
--- a/kanon/thread/thread_pool.h
+++ b/kanon/thread/thread_pool.h
@@ -29,7 +29,8 @@ class ThreadPool : noncopyable {
                                      std::string const &name = "ThreadPool");
 
   /**
-   * \brief join all thread to reclaim their resource
+   * \brief run the remaining tasks and join all thread to reclaim their
+   * resource
    */
   KANON_CORE_API ~ThreadPool() KANON_NOEXCEPT;
 
@@ -53,14 +54,17 @@ class ThreadPool : noncopyable {
   /**
    * \brief pop the task from queue, and notify Push() to produce which can
    * produce more task
+   * \return
+   *  false -- the pool is being destroyed and there are no more tasks
    */
-  Task Pop();
+  bool Pop(Task &task);
 
   mutable MutexLock mutex_;
   Condition not_full_ GUARDED_BY(mutex_);
   Condition not_empty_ GUARDED_BY(mutex_);
 
   int max_queue_size_;
+  bool quit_;
 
   std::vector<std::unique_ptr<kanon::Thread>> threads_;
   std::queue<Task> tasks_;
-- 
2.43.0


From b28b68814582081b6951d5b15b5b4a3143ed33d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:31 +0000
Subject: [PATCH 21/56] fix: AtomicCounter::Reset and WeakCallback return a
 value on every path

---
 kanon/thread/atomic_counter.h | 6 +++++-
 kanon/thread/weak_callback.h  | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/kanon/thread/atomic_counter.h b/kanon/thread/atomic_counter.h
index 9f936a4..d6558a2 100644
--- a/kanon/thread/atomic_counter.h
+++ b/kanon/thread/atomic_counter.h
@@ -34,7 +34,11 @@ class AtomicCounter : noncopyable {
     return *this;
   }
 
-  T Reset() KANON_NOEXCEPT { count_.store(0, std::memory_order_relaxed); }
+  T Reset() KANON_NOEXCEPT
+  {
+    SetValue(0);
+    return 0;
+  }
 
   void SetValue(T const val) KANON_NOEXCEPT
   {
diff --git a/kanon/thread/weak_callback.h b/kanon/thread/weak_callback.h
index e5e23b4..5ddd1f4 100644
--- a/kanon/thread/weak_callback.h
+++ b/kanon/thread/weak_callback.h
@@ -25,7 +25,9 @@ public:
   {
     auto sp = ptr_.lock();
     if(sp)
-      fun_(sp.get(), args...);
+      return fun_(sp.get(), args...);
+
+    return R();
   }
 private:
   std::weak_ptr<T> ptr_;
-- 
2.43.0


From b50960f7654949469a4a8ca8c5984b68e413d16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:43 +0000
Subject: [PATCH 22/56] fix: a running thread doesn't use its Thread object,
 which may be moved or destroyed

---
 kanon/thread/thread.cc | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/kanon/thread/thread.cc b/kanon/thread/thread.cc
index 77c73b1..757b319 100644
--- a/kanon/thread/thread.cc
+++ b/kanon/thread/thread.cc
@@ -26,6 +26,23 @@ namespace kanon {
 
 AtomicCounter32 Thread::numCreated_{};
 
+namespace detail {
+
+// What the new thread needs, since the Thread object may be moved or destroyed
+// (i.e. detached) before the thread has finished
+struct ThreadData : noncopyable {
+  ThreadData(Thread::Threadfunc const &f, string const &n)
+    : func(f)
+    , name(n)
+  {
+  }
+
+  Thread::Threadfunc func;
+  string name;
+};
+
+} // namespace detail
+
 Thread::Thread(std::string const &name)
   : Thread(Threadfunc(), name)
 {
@@ -58,10 +75,10 @@ void Thread::StartRun()
   assert(!is_started_);
   is_started_ = false;
 
-  // auto data = new detail::ThreadData{ func_, name_ };
+  auto data = new detail::ThreadData(func_, name_);
 #ifdef KANON_ON_UNIX
   int err = 0;
-  err = pthread_create(&pthreadId_, NULL, &detail::Run, this);
+  err = pthread_create(&pthreadId_, NULL, &detail::Run, data);
   if (err != 0) {
     char buf[128];
     auto ret = ::strerror_r(errno, buf, sizeof buf);
@@ -74,7 +91,7 @@ void Thread::StartRun()
   }
 #else
   try {
-    std::thread thr(&detail::Run, this);
+    std::thread thr(&detail::Run, data);
 #ifdef KANON_ON_UNIX
     pthreadId_ = thr.native_handle();
 #else
@@ -132,9 +149,9 @@ namespace detail {
 void *Run(void *arg)
 {
   CurrentThread::cacheTid();
-  auto thread = reinterpret_cast<Thread *>(arg);
+  std::unique_ptr<ThreadData> thread(reinterpret_cast<ThreadData *>(arg));
   CurrentThread::t_name =
-      thread->name_.empty() ? "KanonThread" : thread->name_.c_str();
+      thread->name.empty() ? "KanonThread" : thread->name.c_str();
 
   // process control
   // set calling thread name
@@ -147,19 +164,19 @@ void *Run(void *arg)
 #endif
 
   try {
-    thread->func_();
+    thread->func();
     CurrentThread::t_name = "finished";
   }
   catch (std::exception const &ex) {
     ::fprintf(stderr, "std::exception is caught in Thread %s\n",
-              thread->name_.c_str());
+              thread->name.c_str());
     ::fprintf(stderr, "Reason: %s", ex.what());
     ::fflush(stderr);
     ::abort(); // don't throw or return just terminate
   }
   catch (...) {
     ::fprintf(stderr, "Unknown exception is caught in Thread %s\n",
-              thread->name_.c_str());
+              thread->name.c_str());
     ::abort();
   }
 
-- 
2.43.0


From 22d183c3cfce594e6c89a1efd5d961956481b3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:46 +0000
Subject: [PATCH 23/56] fix: asserting that a mutex is locked aborts when it
 isn't, not when it is

---
 kanon/thread/mutex_lock.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/thread/mutex_lock.h b/kanon/thread/mutex_lock.h
index c2e13e2..22996fb 100644
--- a/kanon/thread/mutex_lock.h
+++ b/kanon/thread/mutex_lock.h
@@ -103,7 +103,7 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
 
   bool IsLockedInThisThread() { return holder_ == CurrentThread::tid(); }
 
-  void AssertLocked() { ASSERT(IsLockedInThisThread()); }
+  void AssertLocked() { ASSERT(IsLockedInThisThread() ? 0 : EPERM); }
 
   void Lock() ACQUIRE()
   {
-- 
2.43.0


From ff429cee7f8b2dc942947aa9bed72ef1c8c439ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:53 +0000
Subject: [PATCH 24/56] fix: a Thread moved from neither detaches nor joins its
 former thread, and one moved to detaches its own

---
 kanon/thread/thread.cc | 4 +++-
 kanon/thread/thread.h  | 5 +++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/kanon/thread/thread.cc b/kanon/thread/thread.cc
index 757b319..46c77c8 100644
--- a/kanon/thread/thread.cc
+++ b/kanon/thread/thread.cc
@@ -59,7 +59,9 @@ Thread::Thread(Threadfunc func, string const &name)
   SetDefaultName();
 }
 
-Thread::~Thread()
+Thread::~Thread() { Detach(); }
+
+void Thread::Detach() KANON_NOEXCEPT
 {
   if (is_started_ && !is_joined_) {
 #ifdef KANON_ON_UNIX
diff --git a/kanon/thread/thread.h b/kanon/thread/thread.h
index 1d83727..d2e3bdc 100644
--- a/kanon/thread/thread.h
+++ b/kanon/thread/thread.h
@@ -62,10 +62,14 @@ class Thread : noncopyable {
     , name_{std::move(rhs.name_)}
   {
     rhs.pthreadId_ = 0;
+    rhs.is_started_ = false;
   }
 
   Thread &operator=(Thread &&rhs) KANON_NOEXCEPT
   {
+    if (this == &rhs) return *this;
+    Detach();
+
     func_ = std::move(rhs.func_);
     is_started_ = rhs.is_started_;
     is_joined_ = rhs.is_joined_;
@@ -88,6 +92,7 @@ class Thread : noncopyable {
 
  private:
   KANON_CORE_NO_API void SetDefaultName();
+  KANON_CORE_API void Detach() KANON_NOEXCEPT;
 
   friend void *detail::Run(void *arg);
 
-- 
2.43.0


From a5db29a1f6d9ecb64f5c78c1eb2b1e4d6931aeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:59 +0000
Subject: [PATCH 25/56] fix: quitting a loop from another thread and destroying
 a loop thread race with the loop's end

A thread that quits a loop, or queues the functor that quits it, woke the loop up
after the loop could have been destroyed by its own thread; a loop thread whose
loop has quit was neither joined nor waited for, read the loop unlocked, and
waited forever for a loop that quits at once.
---
 kanon/net/event_loop.cc        | 21 ++++++++++++-----
 kanon/net/event_loop_thread.cc | 41 +++++++++++++++++++++++++---------
 kanon/net/event_loop_thread.h  | 11 +++++----
 3 files changed, 51 insertions(+), 22 deletions(-)

diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index 4e694dc..be79212 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -176,6 +176,10 @@ void EventLoop::StartLoop()
   LOG_TRACE_KANON << "EventLoop " << this << " loop stop";
 
   looping_ = false;
+
+  // Another thread that has queued the functor that quits the loop or has called
+  // Quit() may still wake up the loop, which can be destroyed after returning.
+  MutexGuard dummy(lock_);
 }
 
 void EventLoop::RunInLoop(FunctorCallback cb)
@@ -202,10 +206,10 @@ void EventLoop::RunInLoop(FunctorCallback cb)
 
 void EventLoop::QueueToLoop(FunctorCallback cb)
 {
-  {
-    MutexGuard dummy(lock_);
-    functors_.emplace_back(std::move(cb));
-  }
+  // The loop may take the functor, quit and be destroyed as soon as the lock is
+  // released(\see StartLoop()), so hold it until the loop has been woken up.
+  MutexGuard dummy(lock_);
+  functors_.emplace_back(std::move(cb));
 
   // If not in IO thread(async), and not event occurred, then block.
   // That's wrong, since it is expected to be called immediately.
@@ -293,6 +297,13 @@ void EventLoop::Wakeup() KANON_NOEXCEPT
 
 void EventLoop::Quit() KANON_NOEXCEPT
 {
+  if (this->IsLoopInThread()) {
+    quit_ = true;
+    return;
+  }
+
+  // \see StartLoop()
+  MutexGuard dummy(lock_);
   if (quit_) return;
   quit_ = true;
 
@@ -303,7 +314,7 @@ void EventLoop::Quit() KANON_NOEXCEPT
   // * In the loop, the only choice is timer event, but it is not blocking
   // * In the other thread, do an asynchronous call, need call Wakeup() to
   //   avoid empty poll like QueueToLoop()
-  if (!this->IsLoopInThread()) this->Wakeup();
+  this->Wakeup();
 }
 
 TimerId EventLoop::RunAt(TimerCallback cb, TimeStamp expiration)
diff --git a/kanon/net/event_loop_thread.cc b/kanon/net/event_loop_thread.cc
index c4407be..e7bc29d 100644
--- a/kanon/net/event_loop_thread.cc
+++ b/kanon/net/event_loop_thread.cc
@@ -6,6 +6,7 @@ using namespace kanon;
 
 EventLoopThread::EventLoopThread(std::string const &name)
   : loop_{nullptr}
+  , ready_{false}
   , mutex_{}
   , cond_{mutex_}
   , thr_{name}
@@ -14,12 +15,18 @@ EventLoopThread::EventLoopThread(std::string const &name)
 
 EventLoopThread::~EventLoopThread() KANON_NOEXCEPT
 {
-  // if Quit() is not called through pointer return from StartRun()
-  // we should call quit explicitly
-  if (loop_ != nullptr) {
-    loop_->Quit();
-    thr_.Join(); // wait loop quiting
+  bool started = false;
+  {
+    // The loop isn't destroyed before the lock is released
+    MutexGuard guard{mutex_};
+    // if Quit() is not called through pointer return from StartRun()
+    // we should call quit explicitly
+    if (loop_ != nullptr) loop_->Quit();
+    started = ready_;
   }
+
+  // The thread uses this object even if the loop has quit already
+  if (started) thr_.Join();
 }
 
 EventLoop *EventLoopThread::StartRun(ThreadInitCallback const &init_cb)
@@ -28,11 +35,9 @@ EventLoop *EventLoopThread::StartRun(ThreadInitCallback const &init_cb)
       std::bind(&EventLoopThread::BackGroundStartLoop, this,
                 std::reference_wrapper<ThreadInitCallback const>(init_cb)));
 
-  {
-    MutexGuard guard{mutex_};
-    while (loop_ == nullptr) {
-      cond_.Wait();
-    }
+  MutexGuard guard{mutex_};
+  while (!ready_) {
+    cond_.Wait();
   }
 
   return loop_;
@@ -46,12 +51,26 @@ void EventLoopThread::BackGroundStartLoop(ThreadInitCallback const &init_cb)
   {
     MutexGuard guard{mutex_};
     loop_ = &loop;
+    ready_ = true;
     cond_.Notify();
   }
 
   // Maybe quit before StartLoop() be called,
   // but it is harmless.
-  loop_->StartLoop();
+  loop.StartLoop();
 
+  MutexGuard guard{mutex_};
   loop_ = nullptr;
 }
+
+EventLoop *EventLoopThread::GetLoop() KANON_NOEXCEPT
+{
+  MutexGuard guard{mutex_};
+  return loop_;
+}
+
+EventLoop const *EventLoopThread::GetLoop() const KANON_NOEXCEPT
+{
+  MutexGuard guard{mutex_};
+  return loop_;
+}
diff --git a/kanon/net/event_loop_thread.h b/kanon/net/event_loop_thread.h
index 33a52c5..234cc68 100644
--- a/kanon/net/event_loop_thread.h
+++ b/kanon/net/event_loop_thread.h
@@ -35,19 +35,18 @@ class EventLoopThread : noncopyable {
   KANON_INLINE EventLoop *StartRun() { return StartRun({}); }
 
   KANON_NET_API EventLoop *StartRun(ThreadInitCallback const &init_cb);
-  KANON_NET_API EventLoop *GetLoop() KANON_NOEXCEPT { return loop_; }
-  KANON_NET_API EventLoop const *GetLoop() const KANON_NOEXCEPT
-  {
-    return loop_;
-  }
+  //! The loop running in the thread, null if it hasn't started or has quit
+  KANON_NET_API EventLoop *GetLoop() KANON_NOEXCEPT;
+  KANON_NET_API EventLoop const *GetLoop() const KANON_NOEXCEPT;
 
  private:
   // Start loop in background thread(IO thread usually)
   KANON_NET_NO_API void BackGroundStartLoop(ThreadInitCallback const &init_cb);
 
   EventLoop *loop_;
+  bool ready_; //!< Whether the loop has been created(It may have quit)
 
-  MutexLock mutex_;
+  mutable MutexLock mutex_;
   Condition cond_ GUARDED_BY(mutex_);
 
   Thread thr_;
-- 
2.43.0


From 1609075c2b2468fe9e24526ca5d78e563f50c299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:00 +0000
Subject: [PATCH 26/56] fix: an event loop closes its event and timer
 descriptors

---
 kanon/linux/net/timer/timer_queue.cc | 2 ++
 kanon/net/event_loop.cc              | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/kanon/linux/net/timer/timer_queue.cc b/kanon/linux/net/timer/timer_queue.cc
index d9ce7f9..81eab59 100644
--- a/kanon/linux/net/timer/timer_queue.cc
+++ b/kanon/linux/net/timer/timer_queue.cc
@@ -130,6 +130,8 @@ TimerQueue::~TimerQueue() KANON_NOEXCEPT
   for (auto &timer_seq : timers_) {
     delete timer_seq.first;
   }
+
+  ::close(timer_channel_->GetFd());
 }
 
 TimerId TimerQueue::AddTimer(Timer::TimerCallback cb, TimeStamp time,
diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index be79212..e0e9478 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -148,6 +148,9 @@ EventLoop::~EventLoop()
   //     BUT! The assertion will make effect at first, and the exception
   //     information is messing.
   // assert(!looping_);
+#ifdef KANON_ON_UNIX
+  ::close(ev_channel_->GetFd());
+#endif
 }
 
 void EventLoop::StartLoop()
-- 
2.43.0


From b6f2aeb7bbef3b179b0d89d71a4204091c190bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:00 +0000
Subject: [PATCH 27/56] fix: a default constructed timer id names no timer

---
 kanon/net/timer/timer_id.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kanon/net/timer/timer_id.h b/kanon/net/timer/timer_id.h
index 083557e..b51c4ac 100644
--- a/kanon/net/timer/timer_id.h
+++ b/kanon/net/timer/timer_id.h
@@ -36,9 +36,9 @@ class KANON_NET_NO_API TimerId {
   KANON_INLINE ~TimerId() = default;
 
  private:
-  Timer *timer_;
-  uint64_t seq_;
-  void *ctx_;
+  Timer *timer_ = nullptr;
+  uint64_t seq_ = 0;
+  void *ctx_ = nullptr;
 };
 
 //!@}
-- 
2.43.0


From 296d40587cc6d72eaea26e720322efc7bc0bd0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:54 +0000
Subject: [PATCH 28/56] fix: the acceptor accepts all pending connections and
 survives running out of descriptors

---
 kanon/linux/net/sock_api.cc | 22 ++++------
 kanon/net/acceptor.cc       | 87 ++++++++++++++++++++++++-------------
 kanon/net/acceptor.h        |  3 ++
 3 files changed, 67 insertions(+), 45 deletions(-)

diff --git a/kanon/linux/net/sock_api.cc b/kanon/linux/net/sock_api.cc
index 5fe07b3..49ae62c 100644
--- a/kanon/linux/net/sock_api.cc
+++ b/kanon/linux/net/sock_api.cc
@@ -47,28 +47,22 @@ FdType sock::Accept(FdType fd, sockaddr_in6 *addr) KANON_NOEXCEPT
       ::accept4(fd, sock::to_sockaddr(addr), &socklen, O_NONBLOCK | O_CLOEXEC);
 #endif
   if (cli_sock < 0) {
-    switch (errno) {
-      case EAGAIN: // In linux, EAGAIN = EWOULDBLOCK
-      case ECONNABORTED:
-      case EINTR:
-      case EMFILE: // per-process limit on the number of open fd has been
-                   // reached
-        LOG_SYSERROR_KANON << "accept() expected error occurred";
-        break;
+    const auto saved_errno = errno;
+    switch (saved_errno) {
+      case EBADF:
       case EFAULT:
       case EINVAL:
-      case ENFILE:
       case ENOTSOCK:
-      case EOPNOTSUPP:
-      case EPROTO:
-      case ENOBUFS:
-      case ENOMEM:
         LOG_SYSFATAL << "accept() unexpected error occurred";
         break;
+      // EMFILE: per-process limit on the number of open fd has been reached
+      // The others(e.g. ENFILE, ENOBUFS, ENOMEM, EPERM, and the network errors
+      // that are pending on the new socket) are also temporary.
       default:
-        LOG_SYSFATAL << "accept() unknown error occurred";
+        LOG_SYSERROR_KANON << "accept() expected error occurred";
         break;
     }
+    errno = saved_errno;
   }
   return cli_sock;
 }
diff --git a/kanon/net/acceptor.cc b/kanon/net/acceptor.cc
index 7aa0192..2c89b5c 100644
--- a/kanon/net/acceptor.cc
+++ b/kanon/net/acceptor.cc
@@ -26,36 +26,10 @@ Acceptor::Acceptor(EventLoop *loop, InetAddr const &addr, bool reuseport)
     KANON_UNUSED(stamp);
     loop_->AssertInThread();
 
-    InetAddr cli_addr;
-    auto cli_fd = socket_.Accpet(cli_addr);
-
-    if (cli_fd >= 0) {
-      if (new_connection_callback_) {
-        // dispatching connection to IO thread
-        new_connection_callback_(cli_fd, cli_addr);
-      } else {
-        sock::Close(cli_fd);
-      }
-    } else {
-      // if process limited open fd has reached,
-      // os also accept this fd and put to wait queue
-      // since we take level trigger policy,
-      // so it will cause busy loop
-      // so we should use dummy fd to accept and close it
-      if (errno == EMFILE) {
-// first close dummy fd, leave a space for fd in wait queue
-#ifdef KANON_ON_UNIX
-        ::close(dummyfd_);
-        // accept the fd
-        dummyfd_ = ::accept(socket_.GetFd(), NULL, NULL);
-        ::close(dummyfd_);
-        // create new dummy fd to use after
-        dummyfd_ = ::open("/dev/null", O_RDONLY | O_CLOEXEC);
-#endif
-      }
-
-      // We don't handle error since sock::Accept() has handled
-    }
+    // A listening socket is reported once for all pending connections in the
+    // edge trigger mode
+    while (AcceptOne() && loop_->IsEdgeTriggerMode())
+      ;
   });
 
   // Can't call Channel::EnableReading() in the ctor
@@ -76,8 +50,59 @@ Acceptor::~Acceptor() KANON_NOEXCEPT
   channel_.DisableAll();
   channel_.Remove();
 #ifdef KANON_ON_UNIX
-  ::close(dummyfd_);
+  if (dummyfd_ >= 0) ::close(dummyfd_);
+#endif
+}
+
+bool Acceptor::AcceptOne()
+{
+#ifdef KANON_ON_UNIX
+  // The dummy fd can't be created again after rejecting the last connection
+  if (dummyfd_ < 0) dummyfd_ = ::open("/dev/null", O_RDONLY | O_CLOEXEC);
+#endif
+
+  InetAddr cli_addr;
+  auto cli_fd = socket_.Accpet(cli_addr);
+
+  if (cli_fd >= 0) {
+    if (new_connection_callback_) {
+      // dispatching connection to IO thread
+      new_connection_callback_(cli_fd, cli_addr);
+    } else {
+      sock::Close(cli_fd);
+    }
+    return true;
+  }
+
+  // We don't handle error since sock::Accept() has handled
+  switch (errno) {
+    case EAGAIN:
+    case ENOBUFS:
+    case ENOMEM:
+      return false;
+#ifdef KANON_ON_UNIX
+    case EMFILE:
+    case ENFILE: {
+      // if process limited open fd has reached,
+      // os also accept this fd and put to wait queue
+      // since we take level trigger policy,
+      // so it will cause busy loop
+      // so we should use dummy fd to accept and close it
+      if (dummyfd_ < 0) return false;
+      // first close dummy fd, leave a space for fd in wait queue
+      ::close(dummyfd_);
+      // accept the fd
+      const int fd = ::accept(socket_.GetFd(), NULL, NULL);
+      if (fd >= 0) ::close(fd);
+      // create new dummy fd to use after
+      dummyfd_ = ::open("/dev/null", O_RDONLY | O_CLOEXEC);
+      return fd >= 0;
+    }
 #endif
+    default:
+      // Only this connection is affected
+      return true;
+  }
 }
 
 void Acceptor::Listen() KANON_NOEXCEPT
diff --git a/kanon/net/acceptor.h b/kanon/net/acceptor.h
index 6c4f377..c9979c3 100644
--- a/kanon/net/acceptor.h
+++ b/kanon/net/acceptor.h
@@ -73,6 +73,9 @@ class KANON_NET_NO_API Acceptor : noncopyable {
   }
 
  private:
+  //! Accept a connection, return true if there may be another one
+  bool AcceptOne();
+
   EventLoop *loop_; //!< Ensure "One loop per thread"
   Socket socket_;   //!< Accept socket
   Channel channel_; //!< Accept channel
-- 
2.43.0


From 6645e5c8551bb842f123106c545670ff93ac3ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:23 +0000
Subject: [PATCH 29/56] fix: destroying a loop thread calls the functors queued
 before

---
 kanon/net/event_loop_thread.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/kanon/net/event_loop_thread.cc b/kanon/net/event_loop_thread.cc
index e7bc29d..77e58fb 100644
--- a/kanon/net/event_loop_thread.cc
+++ b/kanon/net/event_loop_thread.cc
@@ -21,7 +21,16 @@ EventLoopThread::~EventLoopThread() KANON_NOEXCEPT
     MutexGuard guard{mutex_};
     // if Quit() is not called through pointer return from StartRun()
     // we should call quit explicitly
-    if (loop_ != nullptr) loop_->Quit();
+    // The functors queued before(e.g. close a connection) and the functors
+    // queued by them(e.g. destroy the connection) are called first
+    if (loop_ != nullptr) {
+      auto loop = loop_;
+      loop->QueueToLoop([loop]() {
+        loop->QueueToLoop([loop]() {
+          loop->Quit();
+        });
+      });
+    }
     started = ready_;
   }
 
-- 
2.43.0


From aa9b0bcde688ebca85daba5c2e8c246a85a53dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:23 +0000
Subject: [PATCH 30/56] fix: the server can be destroyed and started safely
 while its loops are working

---
 kanon/net/tcp_server.cc | 57 +++++++++++++++++++++++++------------
 kanon/net/tcp_server.h  | 63 +++++++++++++++++++++++++++++++++++++++--
 2 files changed, 100 insertions(+), 20 deletions(-)

diff --git a/kanon/net/tcp_server.cc b/kanon/net/tcp_server.cc
index 6324dfc..0b81b10 100644
--- a/kanon/net/tcp_server.cc
+++ b/kanon/net/tcp_server.cc
@@ -9,10 +9,9 @@
 #include "kanon/net/event_loop_pool.h"
 #include "kanon/net/acceptor.h"
 
-#include "kanon/mem/object_pool_allocator.h"
-
 #include <signal.h>
 #include <atomic>
+#include <vector>
 
 using namespace kanon;
 
@@ -68,7 +67,7 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
                                             static_cast<char const *>(name))}
   , start_once_{false}
   , enable_pool_{false}
-  , conn_pool_{10}
+  , conn_pool_{std::make_shared<ConnPool>(10)}
 {
   g_loop = loop_;
   ::signal(SIGINT, &SigIntHandler);
@@ -105,17 +104,19 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
       conn = TcpConnection::NewTcpConnection(io_loop, conn_name, cli_sock, local_addr, cli_addr);  
     }
 #else
-        LOG_TRACE_KANON << "Pool block num = " << conn_pool_.GetBlockNum();
-        LOG_TRACE_KANON << "Pool usage = "
-                        << conn_pool_.GetUsage(sizeof(TcpConnection));
-        LOG_TRACE_KANON << "The number of alive connections: "
-                        << connections_.size();
+        {
+          MutexGuard guard(conn_pool_->lock);
+          LOG_TRACE_KANON << "Pool block num = "
+                          << conn_pool_->pool.GetBlockNum();
+          LOG_TRACE_KANON << "Pool usage = "
+                          << conn_pool_->pool.GetUsage(sizeof(TcpConnection));
+        }
 
         auto conn =
             enable_pool_
                 ? TcpConnection::NewTcpConnection(
                       io_loop, conn_name, cli_sock, local_addr, cli_addr,
-                      ObjectPoolAllocator<void>(conn_pool_))
+                      ConnAllocator<TcpConnection>(conn_pool_))
                 : TcpConnection::NewTcpConnection(io_loop, conn_name, cli_sock,
                                                   local_addr, cli_addr);
 #endif
@@ -123,6 +124,8 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
         {
           MutexGuard guard(lock_conn_);
           connections_[conn_name] = conn;
+          LOG_TRACE_KANON << "The number of alive connections: "
+                          << connections_.size();
         }
 
         conn->SetMessageCallback(message_callback_);
@@ -133,7 +136,6 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
           io_loop->AssertInThread();
 
           size_t n = 0;
-          KANON_UNUSED(n);
           {
             MutexGuard guard(lock_conn_);
             n = connections_.erase(conn->GetName());
@@ -141,7 +143,9 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
                             << connections_.size();
           }
 
-          assert(n == 1);
+          // The server is being destroyed, it has queued the
+          // ConnectionDestroyed()
+          if (n == 0) return;
 
           // !Must call QueueToLoop() here,
           // we can't destroy the channel_ in the handling events phase,
@@ -172,8 +176,14 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
 
 TcpServer::~TcpServer() KANON_NOEXCEPT
 {
-  //
-  for (auto &conn_pair : connections_) {
+  // The connections may be closed in the IO loops now
+  ConnectionMap connections;
+  {
+    MutexGuard guard(lock_conn_);
+    connections.swap(connections_);
+  }
+
+  for (auto &conn_pair : connections) {
     auto conn = conn_pair.second;
     conn_pair.second.reset();
 
@@ -182,6 +192,9 @@ TcpServer::~TcpServer() KANON_NOEXCEPT
       conn->ConnectionDestroyed();
     });
   }
+
+  // The close callbacks called in the IO loops use this object
+  pool_.reset();
 }
 
 void TcpServer::SetLoopNum(int num) KANON_NOEXCEPT { pool_->SetLoopNum(num); }
@@ -193,7 +206,7 @@ void TcpServer::StartRun() KANON_NOEXCEPT
   // If the other thread also call this function,
   // may be call this more than once.
   // EventLoopPool::StartRun() can only be called once
-  if (!start_once_) {
+  if (!start_once_.exchange(true)) {
     // start IO loop
     loop_->RunInLoop([this]() {
       // Boot the loop pool in the binded loop
@@ -213,7 +226,6 @@ void TcpServer::StartRun() KANON_NOEXCEPT
       pool_->StartRun(init_cb_);
       LOG_INFO_KANON << name_ << " is listening in " << ip_port_;
       acceptor_->Listen();
-      start_once_ = true;
     });
   }
 }
@@ -222,8 +234,17 @@ bool TcpServer::IsRunning() KANON_NOEXCEPT { return acceptor_->Listening(); }
 
 void TcpServer::ApplyAllPeers(ConnApplyCb cb)
 {
-  MutexGuard gaurd(lock_conn_);
-  for (auto &name_conn : connections_) {
-    cb(name_conn.second);
+  // The callback may close the connection
+  std::vector<TcpConnectionPtr> conns;
+  {
+    MutexGuard guard(lock_conn_);
+    conns.reserve(connections_.size());
+    for (auto &name_conn : connections_) {
+      conns.push_back(name_conn.second);
+    }
+  }
+
+  for (auto &conn : conns) {
+    cb(conn);
   }
 }
diff --git a/kanon/net/tcp_server.h b/kanon/net/tcp_server.h
index 08704b8..af16e34 100644
--- a/kanon/net/tcp_server.h
+++ b/kanon/net/tcp_server.h
@@ -6,6 +6,8 @@
 #  include <winsock2.h>
 #endif
 
+#include <memory>
+#include <new>
 #include <unordered_map>
 
 #include "kanon/util/noncopyable.h"
@@ -123,7 +125,8 @@ class TcpServer : noncopyable {
 
   void SetChunkPerBlock(size_t n) KANON_NOEXCEPT
   {
-    conn_pool_.SetChunkPerBlock(n);
+    MutexGuard guard(conn_pool_->lock);
+    conn_pool_->pool.SetChunkPerBlock(n);
   }
 
   //!@}
@@ -229,8 +232,64 @@ class TcpServer : noncopyable {
   /**
    * Fixed chunk memory pool.
    * The chunk size is sizeof(TcpConnection).
+   * The connections are allocated in the accept loop but freed in the IO loops,
+   * and the last one may be freed after the server.
    */
-  FixedChunkMemoryPool conn_pool_;
+  struct ConnPool {
+    explicit ConnPool(size_t chunk_per_block)
+      : pool{chunk_per_block}
+    {
+    }
+
+    MutexLock lock;
+    FixedChunkMemoryPool pool;
+  };
+
+  template <typename T>
+  struct ConnAllocator {
+    using value_type = T;
+
+    explicit ConnAllocator(std::shared_ptr<ConnPool> const &p)
+      : pool{p}
+    {
+    }
+
+    template <typename U>
+    ConnAllocator(ConnAllocator<U> const &rhs)
+      : pool{rhs.pool}
+    {
+    }
+
+    T *allocate(size_t n)
+    {
+      MutexGuard guard(pool->lock);
+      auto ptr = pool->pool.Malloc(n * sizeof(T));
+      if (!ptr) throw std::bad_alloc{};
+      return static_cast<T *>(ptr);
+    }
+
+    void deallocate(T *ptr, size_t) KANON_NOEXCEPT
+    {
+      MutexGuard guard(pool->lock);
+      pool->pool.Free(ptr);
+    }
+
+    template <typename U>
+    bool operator==(ConnAllocator<U> const &rhs) const KANON_NOEXCEPT
+    {
+      return pool == rhs.pool;
+    }
+
+    template <typename U>
+    bool operator!=(ConnAllocator<U> const &rhs) const KANON_NOEXCEPT
+    {
+      return pool != rhs.pool;
+    }
+
+    std::shared_ptr<ConnPool> pool;
+  };
+
+  std::shared_ptr<ConnPool> conn_pool_;
 };
 
 //!@}
-- 
2.43.0


From d8f41ba6bf7400160aab71d7da6b3c5b24ae4b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:54 +0000
Subject: [PATCH 31/56] fix: the address for a port is initialised as a whole

---
 kanon/net/inet_addr.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kanon/net/inet_addr.cc b/kanon/net/inet_addr.cc
index 37c50c4..4f95581 100644
--- a/kanon/net/inet_addr.cc
+++ b/kanon/net/inet_addr.cc
@@ -34,6 +34,7 @@ static_assert(sizeof(InetAddr) == sizeof(struct sockaddr_in6),
 
 InetAddr::InetAddr(Port port, bool loopback, bool v6)
 {
+  ::memset(this, 0, sizeof *this);
   if (v6) {
     addr6_.sin6_port = sock::ToNetworkByteOrder16(port);
     addr6_.sin6_addr = loopback ? in6addr_loopback : in6addr_any;
-- 
2.43.0


From 2fcb4d20211b4b04080bce5b864b5f927a05f3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:19 +0000
Subject: [PATCH 32/56] fix: the connector lives as long as its pending
 functors, timers and channel events need it

---
 kanon/linux/net/connector.cc | 19 ++++++---
 kanon/net/connector.cc       | 82 +++++++++++++++++++++++-------------
 kanon/net/connector.h        | 14 ++++++
 3 files changed, 79 insertions(+), 36 deletions(-)

diff --git a/kanon/linux/net/connector.cc b/kanon/linux/net/connector.cc
index cab1787..0b11842 100644
--- a/kanon/linux/net/connector.cc
+++ b/kanon/linux/net/connector.cc
@@ -76,13 +76,17 @@ void Connector::CompleteConnect(FdType sockfd)
   assert(!channel_);
   channel_ = kanon::make_unique<Channel>(loop_, sockfd);
 
-  channel_->SetWriteCallback([this]() {
-    FdType sockfd = channel_->GetFd();
+  // The connector must be alive until the channel is reset
+  auto self = shared_from_this();
+  auto channel = channel_.get();
+
+  channel_->SetWriteCallback([this, self, channel]() {
     // NOTICE:
     // OUT maybe occurs with ERR(and HUP).
     // Therefore, the error callback is called before this,
-    // use state to distinguish them.
-    if (state_ == State::kConnecting) {
+    // use channel to distinguish them.
+    if (channel_.get() == channel) {
+      FdType sockfd = channel->GetFd();
       ResetChannel();
       int err = sock::GetSocketError(sockfd);
 
@@ -116,6 +120,7 @@ void Connector::CompleteConnect(FdType sockfd)
           else {
             LOG_WARN_KANON << "There is no new connection callback, cannot to create "
                         "connection";
+            sock::Close(sockfd);
           }
           LOG_TRACE_KANON << "Connection is established successfully";
         } else {
@@ -127,9 +132,9 @@ void Connector::CompleteConnect(FdType sockfd)
     }
   });
 
-  channel_->SetErrorCallback([this]() {
-    if (state_ == State::kConnecting) {
-      FdType sockfd = channel_->GetFd();
+  channel_->SetErrorCallback([this, self, channel]() {
+    if (channel_.get() == channel) {
+      FdType sockfd = channel->GetFd();
       ResetChannel();
       int err = sock::GetSocketError(sockfd);
       if (err) {
diff --git a/kanon/net/connector.cc b/kanon/net/connector.cc
index 4d5a919..a0e45ca 100644
--- a/kanon/net/connector.cc
+++ b/kanon/net/connector.cc
@@ -30,14 +30,20 @@ Connector::~Connector() KANON_NOEXCEPT
 
 void Connector::StartRun()
 {
-  loop_->RunInLoop([this]() {
-    loop_->AssertInThread();
+  // The connector may be destroyed before the functor is called
+  loop_->RunInLoop(std::bind(&Connector::StartInLoop, shared_from_this()));
+}
 
-    assert(state_ == kDisconnected);
-    if (connect_) {
-      Connect();
-    }
-  });
+void Connector::StartInLoop()
+{
+  loop_->AssertInThread();
+
+  // Don't retry twice
+  CancelRetry();
+
+  if (connect_) {
+    Connect();
+  }
 }
 
 void Connector::Stop()
@@ -61,8 +67,12 @@ void Connector::StopInLoop()
   LOG_TRACE_KANON << "Connector is stopping";
 
   connect_ = false;
-  if (timer_) loop_->CancelTimer(*timer_);
+  CancelRetry();
+  AbortConnecting();
+}
 
+void Connector::AbortConnecting()
+{
   if (state_ == State::kConnecting) {
     // Only be called when connecting,
     // interrupt reconnecting to peer
@@ -73,25 +83,33 @@ void Connector::StopInLoop()
   }
 }
 
+void Connector::CancelRetry()
+{
+  if (timer_) {
+    loop_->CancelTimer(*timer_);
+    timer_ = kanon::make_null_optional<TimerId>();
+  }
+}
+
 void Connector::Restrat()
 {
-  loop_->RunInLoop([this]() {
-    connect_ = true;
-
-    /*
-     * Can't distinguish passive close and active close
-     * e.g. Connector is destroyed and restart shouldn't be thinked to close
-     *      if connection is not established.
-     */
-    if (state_ != kConnected) {
-      // LOG_WARN_KANON << "Restart() must be used for reconnecting when passive
-      // closed by peer";
-    }
-    SetState(State::kDisconnected);
-    retry_interval_ = INIT_RETRY_INTERVAL;
+  loop_->RunInLoop(std::bind(&Connector::RestartInLoop, shared_from_this()));
+}
 
-    StartRun();
-  });
+void Connector::RestartInLoop()
+{
+  connect_ = true;
+
+  /*
+   * Can't distinguish passive close and active close
+   * e.g. Connector is destroyed and restart shouldn't be thinked to close
+   *      if connection is not established.
+   */
+  AbortConnecting();
+  SetState(State::kDisconnected);
+  retry_interval_ = INIT_RETRY_INTERVAL;
+
+  StartInLoop();
 }
 
 void Connector::Retry(FdType sockfd)
@@ -107,13 +125,17 @@ void Connector::Retry(FdType sockfd)
     LOG_TRACE_KANON << "Client will reconnect to " << serv_addr_.ToIpPort()
                     << " after " << delay_sec << " seconds";
 
+    // Don't retry if the connector has been destroyed
+    std::weak_ptr<Connector> wself(shared_from_this());
     timer_ = loop_->RunAfter(
-        [this]() {
-          StartRun();
+        [wself]() {
+          auto self = wself.lock();
+          if (self) self->StartInLoop();
         },
         delay_sec);
 
-    retry_interval_ *= 2;
+    retry_interval_ =
+        std::min<uint32_t>(retry_interval_ * 2, MAX_RETRY_INTERVAL);
   }
 }
 
@@ -129,7 +151,9 @@ void Connector::ResetChannel()
   // \warning
   // In event handle phase now if called in phase2
   // So, you can't call it immediately
-  loop_->QueueToLoop([this]() {
-    channel_.reset();
+  // Besides, the connector can create a new channel before that
+  std::shared_ptr<Channel> channel(std::move(channel_));
+  loop_->QueueToLoop([channel]() {
+    KANON_UNUSED(channel);
   });
 }
diff --git a/kanon/net/connector.h b/kanon/net/connector.h
index 4f17a92..ad26d48 100644
--- a/kanon/net/connector.h
+++ b/kanon/net/connector.h
@@ -138,8 +138,22 @@ class KANON_NET_NO_API Connector
    */
   void ResetChannel();
 
+  void StartInLoop();
+
   void StopInLoop();
 
+  void RestartInLoop();
+
+  /**
+   * Give up the connect() in progress
+   */
+  void AbortConnecting();
+
+  /**
+   * Cancel the retry timer
+   */
+  void CancelRetry();
+
   EventLoop *loop_;
   InetAddr serv_addr_;
   uint32_t retry_interval_; //!< Time interval of retry connect
-- 
2.43.0


From 6b9007bc2900cd1492036b59f7b07c03caa6e005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:19 +0000
Subject: [PATCH 33/56] fix: the client closes connections nobody can use after
 it is destroyed

---
 kanon/net/tcp_client.cc | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/kanon/net/tcp_client.cc b/kanon/net/tcp_client.cc
index 89a5e61..abba636 100644
--- a/kanon/net/tcp_client.cc
+++ b/kanon/net/tcp_client.cc
@@ -65,6 +65,15 @@ TcpClient::~TcpClient() KANON_NOEXCEPT
     // may be other thread using it
     if (is_unique) {
       conn->ForceClose();
+    } else {
+      // The connection may be only held by the events being handled or the
+      // functors(e.g. send message) temporarily
+      auto loop = loop_;
+      loop->QueueToLoop([loop, conn]() {
+        loop->QueueToLoop([conn]() {
+          if (conn.use_count() == 1) conn->ForceClose();
+        });
+      });
     }
   } else {
     // Disable the connector
@@ -110,7 +119,10 @@ void TcpClient::NewConnection(FdType sockfd, InetAddr const &serv_addr,
   /* Avoid reference cycle */
   auto cli = wcli.lock();
 
-  if (!cli || cli->conn_) return;
+  if (!cli || cli->conn_) {
+    sock::Close(sockfd);
+    return;
+  }
 
   LOG_DEBUG_KANON << "cli sc = " << cli.use_count();
 
@@ -174,6 +186,12 @@ TcpClientPtr kanon::NewTcpClient(EventLoop *loop, InetAddr const &serv_addr,
 void TcpClient::CloseConnectionHandler(std::weak_ptr<TcpClient> const &wp_cli,
                                        TcpConnectionPtr const &conn)
 {
+  // ! In event handling phase, don't remove channel(disable is allowed)
+  // ! conn must be copied(\see TcoConnection::HandleClose())
+  conn->GetLoop()->QueueToLoop([conn]() {
+    conn->ConnectionDestroyed();
+  });
+
   auto cli = wp_cli.lock();
   if (!cli) {
     return;
@@ -191,12 +209,6 @@ void TcpClient::CloseConnectionHandler(std::weak_ptr<TcpClient> const &wp_cli,
     LOG_INFO_KANON << conn->GetName() << " has removed";
   }
 
-  // ! In event handling phase, don't remove channel(disable is allowed)
-  // ! conn must be copied(\see TcoConnection::HandleClose())
-  cli->loop_->QueueToLoop([conn]() {
-    conn->ConnectionDestroyed();
-  });
-
   // If user does not call Disconnect() and
   // support restart when passive close occurred
   if (cli->retry_) {
-- 
2.43.0


From 3949cf4af4f76b1ea6e069fdc5c03133b06e3161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:19 +0000
Subject: [PATCH 34/56] fix: closing a connection in its loop races with
 ForceClose() of the other threads

---
 kanon/net/connection/connection_base.cc | 17 +++++++++++------
 kanon/net/connection/connection_base.h  |  3 ++-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index c5676a1..bbadb04 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -351,6 +351,13 @@ void ConnectionBase<D>::HandleClose()
   // Connected ==> read event handling
   // Disconnecting ==> call ForceClose()
   assert(state_ == kConnected || state_ == kDisconnecting);
+
+  // Prevent connection to be removed from TcpServer immediately(since
+  // close_callback_) TcpServer::RemoveConnection need to call
+  // ConnectionBase<D>::ConnectionDestroyed Therefore, we must guard here.
+  // If the other threads see the connection is disconnected, they can release
+  // it.
+  const auto guard = this->shared_from_this();
   state_ = kDisconnected;
 
   LOG_DEBUG_KANON << "The connection [" << name_ << "] is disconnected";
@@ -359,10 +366,6 @@ void ConnectionBase<D>::HandleClose()
   // ! functor calling phase
   channel_->DisableAll();
 
-  // Prevent connection to be removed from TcpServer immediately(since
-  // close_callback_) TcpServer::RemoveConnection need to call
-  // ConnectionBase<D>::ConnectionDestroyed Therefore, we must guard here
-  const auto guard = this->shared_from_this();
   connection_callback_(guard);
 
   // TcpServer remove connection from its connections_
@@ -403,7 +406,9 @@ void ConnectionBase<D>::ForceClose() KANON_NOEXCEPT
   // disconnected,
   // ForceClose() do nothing.
   if (state_ == kConnected || state_ == kDisconnecting) {
-    state_ = kDisconnecting;
+    // The loop may close the connection now
+    State expected = kConnected;
+    state_.compare_exchange_strong(expected, kDisconnecting);
 
     loop_->RunInLoop(
         std::bind(&ConnectionBase<D>::HandleClose, this->shared_from_this()));
@@ -516,7 +521,7 @@ void ConnectionBase<D>::EnableRead()
 template <typename D>
 char const *ConnectionBase<D>::State2String() const KANON_NOEXCEPT
 {
-  switch (state_) {
+  switch (state_.load()) {
     case kConnecting:
       return "Connecting";
     case kConnected:
diff --git a/kanon/net/connection/connection_base.h b/kanon/net/connection/connection_base.h
index 76722be..5abb7e0 100644
--- a/kanon/net/connection/connection_base.h
+++ b/kanon/net/connection/connection_base.h
@@ -1,6 +1,7 @@
 #ifndef KANON_NET_CONNECTION_BASE_H
 #define KANON_NET_CONNECTION_BASE_H
 
+#include <atomic>
 #include <memory>
 
 #include "kanon/util/noncopyable.h"
@@ -303,7 +304,7 @@ class ConnectionBase
    * about a specific connnection(So, it named context)
    */
   RawAny context_;
-  State state_; //!< Internal useage
+  std::atomic<State> state_; //!< Internal useage
 
 #ifdef KANON_ON_WIN
  public:
-- 
2.43.0


From c2ae7d6d5c6777f1bc2796c237ee0193ca11c4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:19 +0000
Subject: [PATCH 35/56] fix: the loop releases each functor after calling it

---
 kanon/net/event_loop.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index e0e9478..5682b0a 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -260,6 +260,8 @@ void EventLoop::CallFunctors()
     try {
       if (KANON_LIKELY(func)) {
         func();
+        // Release the objects hold by it before calling the next
+        func = nullptr;
       }
     }
     catch (std::exception const &ex) {
-- 
2.43.0


From 8a1d7c1e96688ed10224122baf83d357834cd87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:55 +0000
Subject: [PATCH 36/56] fix: addresses are made of well-formed text only,
 completely initialised, and malformed text throws

---
 kanon/net/inet_addr.cc | 92 +++++++++++++++++++++++++++++++++---------
 1 file changed, 74 insertions(+), 18 deletions(-)

diff --git a/kanon/net/inet_addr.cc b/kanon/net/inet_addr.cc
index 4f95581..1141b58 100644
--- a/kanon/net/inet_addr.cc
+++ b/kanon/net/inet_addr.cc
@@ -32,6 +32,52 @@ static_assert(
 static_assert(sizeof(InetAddr) == sizeof(struct sockaddr_in6),
               "InetAddr size should equal to sockaddr_in6");
 
+namespace {
+
+inline int Pton(std::string const &ip, sockaddr_in &addr)
+{
+  addr.sin_family = AF_INET;
+  return ::inet_pton(AF_INET, ip.c_str(), &addr.sin_addr);
+}
+
+inline int Pton(std::string const &ip, sockaddr_in6 &addr)
+{
+  addr.sin6_family = AF_INET6;
+  return ::inet_pton(AF_INET6, ip.c_str(), &addr.sin6_addr);
+}
+
+// Throw instead of abort since the text may come from user
+void FromText(StringView ip, InetAddr::Port port, sockaddr_in &addr)
+{
+  if (ip.contains('\0') || Pton(ip.ToString(), addr) != 1)
+    throw InetAddrException("This is invalid ipv4 address");
+  addr.sin_port = sock::ToNetworkByteOrder16(port);
+}
+
+void FromText(StringView ip, InetAddr::Port port, sockaddr_in6 &addr)
+{
+  if (ip.contains('\0') || Pton(ip.ToString(), addr) != 1)
+    throw InetAddrException("This is invalid ipv6 address");
+  addr.sin6_port = sock::ToNetworkByteOrder16(port);
+}
+
+// The port must be a decimal number in [0, 65535]
+bool ParsePort(StringView text, InetAddr::Port &port)
+{
+  uint32_t value = 0;
+
+  for (char c : text) {
+    if (c < '0' || c > '9') return false;
+    value = value * 10 + static_cast<uint32_t>(c - '0');
+    if (value > 65535) return false;
+  }
+
+  port = static_cast<InetAddr::Port>(value);
+  return !text.empty();
+}
+
+} // namespace
+
 InetAddr::InetAddr(Port port, bool loopback, bool v6)
 {
   ::memset(this, 0, sizeof *this);
@@ -49,12 +95,15 @@ InetAddr::InetAddr(Port port, bool loopback, bool v6)
 
 InetAddr::InetAddr(StringView ip, Port port)
 {
-  if (ip.find('.') != StringView::npos) {
-    sock::FromIpPort(ip.data(), port, addr_);
-  } else if (ip.find(':') != StringView::npos) {
-    sock::FromIpPort(ip.data(), port, addr6_);
+  ::memset(this, 0, sizeof *this);
+
+  // Ipv6 address may be ended with a dotted decimal(e.g. ::ffff:127.0.0.1)
+  if (ip.find(':') != StringView::npos) {
+    FromText(ip, port, addr6_);
+  } else if (ip.find('.') != StringView::npos) {
+    FromText(ip, port, addr_);
   } else {
-    throw InetAddr("This is invalid ip argument");
+    throw InetAddrException("This is invalid ip argument");
   }
 }
 
@@ -121,7 +170,14 @@ InetAddr::InetAddr(StringView addr)
     }
   }
 #else
-  if (std::isalpha(addr[0])) {
+  ::memset(this, 0, sizeof *this);
+
+  if (addr.empty() || addr.contains('\0'))
+    throw InetAddrException("This a invalid address");
+
+  const int first = static_cast<unsigned char>(addr[0]);
+
+  if (std::isalpha(first)) {
     // Hostname
     auto colon_pos = addr.find(':');
     if (colon_pos != StringView::npos) {
@@ -130,30 +186,30 @@ InetAddr::InetAddr(StringView addr)
       *this = InetAddr(hostname, service);
       return;
     }
-  } else if ((std::isalnum(addr[0]) && addr.find('.') != StringView::npos) ||
+  } else if ((std::isalnum(first) && addr.find('.') != StringView::npos) ||
              addr[0] == '*')
   {
     // Ipv4 address
     auto colon_pos = addr.find(':');
     if (colon_pos != StringView::npos) {
-      auto ip = addr.substr(0, colon_pos).ToString();
+      auto ip = addr.substr(0, colon_pos);
       // ip must be dotted decimal presentation
       if (ip == "*") ip = "0.0.0.0";
-      auto const port = addr.substr(colon_pos + 1).ToString();
-      auto o_port = StringViewToU16(port);
-      if (o_port) {
-        sock::FromIpPort(ip, *o_port, addr_);
+      Port port = 0;
+      if (ParsePort(addr.substr(colon_pos + 1), port)) {
+        FromText(ip, port, addr_);
         return;
       }
     }
   } else if (addr[0] == '[') {
     auto right_pos = addr.find(']');
-    if (right_pos != StringView::npos) {
-      auto const ip = addr.substr_range(1, right_pos).ToString();
-      auto const port = addr.substr(right_pos + 2).ToString();
-      auto o_port = StringViewToU16(port);
-      if (o_port) {
-        sock::FromIpPort(ip, *o_port, addr6_);
+    if (right_pos != StringView::npos && right_pos + 1 < addr.size() &&
+        addr[right_pos + 1] == ':')
+    {
+      auto const ip = addr.substr_range(1, right_pos);
+      Port port = 0;
+      if (ParsePort(addr.substr(right_pos + 2), port)) {
+        FromText(ip, port, addr6_);
         return;
       }
     }
-- 
2.43.0


From 91c887fcf2a0451545ac399a902ba1660c498241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:56 +0000
Subject: [PATCH 37/56] fix: AsyncLog writes everything appended before Stop()
 and never misses the stop

---
 kanon/log/async_log.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/kanon/log/async_log.cc b/kanon/log/async_log.cc
index 89e1e0f..538c80d 100644
--- a/kanon/log/async_log.cc
+++ b/kanon/log/async_log.cc
@@ -64,8 +64,10 @@ void AsyncLog::StartRun()
     LogFile<> output(basename_, roll_size_, prefix_, log_file_num_,
                      roll_interval_, flush_interval_);
 
+    bool running = true;
+
     // back thread do long loop
-    while (running_) {
+    while (running) {
       assert(buffer1 && buffer1->len() == 0);
       assert(buffer2 && buffer2->len() == 0);
       assert(buffers_dup_.empty());
@@ -80,7 +82,7 @@ void AsyncLog::StartRun()
         // \note
         //   This is not a classic use,
         //   but there is one cosumer, use if here is safe
-        if (buffers_.empty()) {
+        if (running_ && buffers_.empty()) {
           // If front thread log message is so short,
           // we also awake and write
           // To ensure real time message
@@ -88,6 +90,11 @@ void AsyncLog::StartRun()
           // not_empty_.Wait();
         }
 
+        // The messages appended before Stop() must also be written.
+        // Since Stop() holds the lock, they are all in the buffers if it is
+        // false
+        running = running_;
+
         // Although current_buffer_ have space to fill
         // we also push it to buffers_
         buffers_.emplace_back(std::move(current_buffer_));
@@ -152,8 +159,13 @@ void AsyncLog::Stop() KANON_NOEXCEPT
 {
   assert(running_);
 
-  running_ = false;
-  not_empty_.Notify();
+  {
+    // Prevent the back thread from missing the notification
+    MutexGuard guard{mutex_};
+    running_ = false;
+    not_empty_.Notify();
+  }
+
   back_thr_.Join();
 }
 
-- 
2.43.0


From 77e64f2811a008ce321f4ec89e3c8785fbb45051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:56 +0000
Subject: [PATCH 38/56] fix: log directory is usable by its owner; short writes
 of a log file continue

---
 kanon/log/append_file.cc | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/kanon/log/append_file.cc b/kanon/log/append_file.cc
index 81300ee..af45dc6 100644
--- a/kanon/log/append_file.cc
+++ b/kanon/log/append_file.cc
@@ -1,5 +1,7 @@
 #include "kanon/log/append_file.h"
 
+#include <errno.h>
+
 #include "kanon/util/macro.h"
 
 #ifdef KANON_ON_UNIX
@@ -29,7 +31,7 @@ AppendFile::AppendFile(StringArg filename)
     auto ret = 0;
 
 #ifdef KANON_ON_UNIX
-    ret = ::mkdir(dir.data(), S_IRUSR);
+    ret = ::mkdir(dir.data(), S_IRWXU);
 #elif defined(KANON_ON_WIN)
     ret = ::_mkdir(dir.data());
 #else
@@ -38,7 +40,8 @@ AppendFile::AppendFile(StringArg filename)
         "TODO: Call the directory creation function in specific platform!");
     ::abort();
 #endif
-    if (ret != 0) {
+    // The other processes may create it at the same time
+    if (ret != 0 && errno != EEXIST) {
       ::fprintf(stderr, "Failed to create a directory: %s\n", dir.data());
       ::fflush(stderr);
       ::abort();
@@ -62,14 +65,16 @@ void AppendFile::_Append(char const *data, size_t num) KANON_NOEXCEPT
     size_t left = num - written;
     auto n = write(data + written, left);
 
-    if (n != left) {
-      auto err = ferror(fp_);
-      if (err)
-        fprintf(stderr, "AppendFile::Append() failed %s\n", strerror_tl(err));
-      break;
-    }
+    const int err = errno;
 
     written += n;
+
+    if (n != left && ferror(fp_)) {
+      clearerr(fp_);
+      if (err == EINTR) continue;
+      fprintf(stderr, "AppendFile::Append() failed %s\n", strerror_tl(err));
+      break;
+    }
   } while (written != num);
 
   writtenBytes_ += written;
-- 
2.43.0


From 966f072bd470d904111d9a7c9ff8b7470dd9c2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:56 +0000
Subject: [PATCH 39/56] fix: the log remover neither spins nor misses files nor
 hangs on exit

---
 kanon/log/log_file.cc | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/kanon/log/log_file.cc b/kanon/log/log_file.cc
index e0507b3..8b97c63 100644
--- a/kanon/log/log_file.cc
+++ b/kanon/log/log_file.cc
@@ -26,19 +26,24 @@ LogFile<T>::LogFile(StringView basename, size_t roll_size, StringView prefix,
 
   if (log_file_num_ != UINT_MAX) {
     remove_thr_.StartRun([this]() {
-      while (!quit_remove_thr_) {
+      // The old log files to be removed by this thread
+      std::vector<std::string> log_files;
+
+      for (;;) {
         {
           MutexGuard guard(remove_mtx_);
-          // There is one consumer only, don't use while is also ok
-          if (log_files_dup_.size() < log_file_num_ - 1) {
+          while (log_files_dup_.empty() && !quit_remove_thr_) {
             remove_cond_.Wait();
           }
+
+          if (log_files_dup_.empty()) break;
+          log_files.swap(log_files_dup_);
         }
 
-        for (auto log_file : log_files_dup_) {
+        for (auto const &log_file : log_files) {
           ::remove(log_file.c_str());
         }
-        log_files_dup_.clear();
+        log_files.clear();
       }
     });
   }
@@ -48,8 +53,11 @@ template <bool T>
 KANON_INLINE LogFile<T>::~LogFile() KANON_NOEXCEPT
 {
   if (log_file_num_ != UINT_MAX) {
-    quit_remove_thr_ = true;
-    remove_cond_.Notify();
+    {
+      MutexGuard guard(remove_mtx_);
+      quit_remove_thr_ = true;
+      remove_cond_.Notify();
+    }
 
     remove_thr_.Join();
   }
@@ -83,15 +91,19 @@ void LogFile<T>::Append(char const *data, size_t num) KANON_NOEXCEPT
     }
   }
 
-  if (log_files_.size() >= log_file_num_) {
+  if (log_files_.size() >= log_file_num_ && log_files_.size() > 1) {
     auto last_file = std::move(log_files_.back());
     log_files_.pop_back();
 
-    log_files_dup_.swap(log_files_);
-    log_files_.emplace_back(std::move(last_file));
-
     KANON_MUTEX_GUARD(remove_mtx_);
+    // The remove thread may not take the files of the last time
+    for (auto &log_file : log_files_) {
+      log_files_dup_.emplace_back(std::move(log_file));
+    }
     remove_cond_.Notify();
+
+    log_files_.clear();
+    log_files_.emplace_back(std::move(last_file));
   }
 }
 
-- 
2.43.0


From 36e61498d120ebad7589e193dc32e90301d2bfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:56 +0000
Subject: [PATCH 40/56] fix: log records are complete lines with the error
 message of the user's errno

---
 kanon/log/logger.cc | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/kanon/log/logger.cc b/kanon/log/logger.cc
index 89b7b74..568cf04 100644
--- a/kanon/log/logger.cc
+++ b/kanon/log/logger.cc
@@ -86,16 +86,31 @@ Logger::FlushCallback Logger::flush_callback_ = &DefaultFlush;
 KANON_TLS char t_errorBuf[ERRNO_BUFFER_SIZE];
 KANON_TLS char t_lastErrorBuf[ERRNO_BUFFER_SIZE];
 
+#ifdef KANON_ON_UNIX
+// XSI version
+static KANON_INLINE char const *StrErrorResult(int) KANON_NOEXCEPT
+{
+  return t_errorBuf;
+}
+
+// GNU version, the message may not be stored in the buffer
+static KANON_INLINE char const *StrErrorResult(char const *msg) KANON_NOEXCEPT
+{
+  return msg;
+}
+#endif
+
 // tl = thread local
 char const *strerror_tl(int savedErrno)
 {
 #ifdef KANON_ON_UNIX
-  auto ret = ::strerror_r(savedErrno, t_errorBuf, ERRNO_BUFFER_SIZE);
+  return StrErrorResult(
+      ::strerror_r(savedErrno, t_errorBuf, ERRNO_BUFFER_SIZE));
 #else
   auto ret = ::strerror_s(t_errorBuf, ERRNO_BUFFER_SIZE, savedErrno);
-#endif
   KANON_UNUSED(ret);
   return t_errorBuf;
+#endif
 }
 
 #ifdef KANON_ON_WIN
@@ -113,6 +128,9 @@ Logger::Logger(SourceFile file, size_t line, LogLevel level)
   , cur_log_level_(level)
   , line_(line)
 {
+  // The errno of the user must not be changed by the logging
+  const int saved_errno = errno;
+
   FormatTime();
   CurrentThread::tid();
   stream_ << StringView(CurrentThread::t_tidString,
@@ -129,6 +147,8 @@ Logger::Logger(SourceFile file, size_t line, LogLevel level)
   } else {
     stream_ << "[" << s_log_level_names_[level] << "] ";
   }
+
+  errno = saved_errno;
 }
 
 Logger::Logger(SourceFile basefile, size_t line, LogLevel level, bool is_sys)
@@ -136,7 +156,7 @@ Logger::Logger(SourceFile basefile, size_t line, LogLevel level, bool is_sys)
 {
   // dummy parameter
   KANON_UNUSED(is_sys);
-  char error_buf[4096];
+  char error_buf[4096] = "";
 #ifdef KANON_ON_UNIX
   auto savedErrno = errno;
   if (savedErrno) {
@@ -156,8 +176,18 @@ Logger::Logger(SourceFile basefile, size_t line, LogLevel level, bool is_sys)
 
 Logger::~Logger() KANON_NOEXCEPT
 {
-  stream_ << " - " << basename_ << ":" << line_ << "\n";
-  output_callback_(stream_.data(), stream_.size());
+  LogStream tail;
+  tail << " - " << basename_ << ":" << line_ << "\n";
+
+  if (tail.size() < stream_.buffer().avali()) {
+    stream_.Append(tail.data(), tail.size());
+    output_callback_(stream_.data(), stream_.size());
+  } else {
+    // The record must be a complete line although the message is too long
+    std::string record(stream_.data(), stream_.size());
+    record.append(tail.data(), tail.size());
+    output_callback_(record.data(), record.size());
+  }
 
   if (cur_log_level_ == KANON_LL_FATAL || cur_log_level_ == KANON_LL_SYS_FATAL)
   {
-- 
2.43.0


From 98bbb51c40d07e3f1662a166f747a12175b0b449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:00 +0000
Subject: [PATCH 41/56] fix: memory pools keep what is handed out in place,
 aligned, and survive shrinking

---
 kanon/mem/fixed_chunk_memory_pool.cc | 63 +++++++++++++++++-----------
 kanon/mem/fixed_chunk_memory_pool.h  |  4 +-
 kanon/mem/linear_fixed_memory_pool.h | 52 +++++++++++++----------
 3 files changed, 72 insertions(+), 47 deletions(-)

diff --git a/kanon/mem/fixed_chunk_memory_pool.cc b/kanon/mem/fixed_chunk_memory_pool.cc
index 17c6f83..4bdeec0 100644
--- a/kanon/mem/fixed_chunk_memory_pool.cc
+++ b/kanon/mem/fixed_chunk_memory_pool.cc
@@ -10,8 +10,12 @@ using namespace kanon;
 // #define ROUNDUP8(x) (((((x) - 1) >> 3) + 1) << 3)
 
 #define CHUNK_NEXT_OFFSET (offsetof(Chunk, next))
-#define BLOCK_SPACE(sz) (sizeof(Block) + (CHUNK_NEXT_OFFSET + sz) * chunk_per_block_)
-#define ALIGN_SIZE(sz) ((sz < chunk_next_space) ? chunk_next_space : sz)
+#define BLOCK_SPACE(sz, n) (sizeof(Block) + (CHUNK_NEXT_OFFSET + sz) * (n))
+// The header of the next chunk must be aligned also
+#define ALIGN_SIZE(sz)                                                         \
+  ((sz < chunk_next_space)                                                     \
+       ? chunk_next_space                                                      \
+       : (sz + chunk_next_space - 1) / chunk_next_space * chunk_next_space)
 #define CHECK_ALIGNED(sz) (sz >= 8)
 
 FixedChunkMemoryPool::FixedChunkMemoryPool(size_t chunk_per_block)
@@ -71,31 +75,41 @@ void FixedChunkMemoryPool::Free(void *ptr)
 void FixedChunkMemoryPool::Shrink(size_t sz)
 {
   sz = ALIGN_SIZE(sz);
-  /* Check the block whether it can be freed */
-  Block *tmp_next = nullptr;
-
-  /* First, Check the block header whether can free */
-  while (IsBlockFree(block_chain_, sz)) {
-    tmp_next = block_chain_->next;
-    free(block_chain_);
-    block_chain_ = tmp_next;
-    block_count_--;
-  }
-  
-  /* The first block is allocated, we can redirect the next don't care it */
-  for (auto block_iter = block_chain_; block_iter->next != nullptr; block_iter = block_iter->next) {
-    tmp_next = block_iter->next;
-    if (IsBlockFree(tmp_next, sz)) {
-      block_iter->next = tmp_next->next;
-      free(tmp_next);
+  /* Free the blocks whose chunks are all free */
+  Block **link = &block_chain_;
+  while (*link) {
+    Block *block = *link;
+    if (IsBlockFree(block, sz)) {
+      *link = block->next;
+      free(block);
       block_count_--;
+    } else {
+      link = &block->next;
+    }
+  }
+
+  /* The chunks of the freed blocks can't be allocated any more */
+  free_chunk_header_ = nullptr;
+  for (Block *block = block_chain_; block; block = block->next) {
+    auto chunk = reinterpret_cast<char*>(block) + sizeof(Block);
+    for (size_t i = 0; i < block->chunk_num; ++i) {
+      auto free_chunk = reinterpret_cast<Chunk*>(chunk);
+      if (free_chunk->status == FREE) {
+        free_chunk->next = free_chunk_header_;
+        free_chunk_header_ = free_chunk;
+      }
+      chunk += CHUNK_NEXT_OFFSET + sz;
     }
   }
 }
 
 size_t FixedChunkMemoryPool::GetUsage(size_t sz) const KANON_NOEXCEPT
 {
-  return BLOCK_SPACE(ALIGN_SIZE(sz)) * block_count_;
+  size_t ret = 0;
+  for (auto block = block_chain_; block; block = block->next) {
+    ret += BLOCK_SPACE(ALIGN_SIZE(sz), block->chunk_num);
+  }
+  return ret;
 }
 
 size_t FixedChunkMemoryPool::GetFreeChunkNum(size_t sz) const KANON_NOEXCEPT
@@ -112,11 +126,12 @@ size_t FixedChunkMemoryPool::GetFreeChunkNum(size_t sz) const KANON_NOEXCEPT
 auto FixedChunkMemoryPool::AllocBlock(size_t sz) -> Chunk*
 {
   assert(CHECK_ALIGNED(sz));
-  auto header = reinterpret_cast<Block*>(malloc(BLOCK_SPACE(sz)));
+  auto header = reinterpret_cast<Block*>(malloc(BLOCK_SPACE(sz, chunk_per_block_)));
   if (!header) return nullptr;
   
   /* Link the block */
   header->next = block_chain_;
+  header->chunk_num = chunk_per_block_;
   block_chain_ = header;
 
   free_chunk_header_ = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(header)+sizeof(Block));
@@ -138,11 +153,11 @@ auto FixedChunkMemoryPool::AllocBlock(size_t sz) -> Chunk*
 bool FixedChunkMemoryPool::IsBlockFree(Block *block, size_t sz)
 {
 #if 0
-  return GetFreeChunkNumInBlock(block, sz) == chunk_per_block_;
+  return GetFreeChunkNumInBlock(block, sz) == block->chunk_num;
 #else
   assert(CHECK_ALIGNED(sz));
   auto chunk_iter = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(block) + sizeof(Block));
-  for (size_t i = 0; i < chunk_per_block_; ++i) {
+  for (size_t i = 0; i < block->chunk_num; ++i) {
     if (chunk_iter->status == ALLOCATED)
       return false;
     chunk_iter = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(chunk_iter) + CHUNK_NEXT_OFFSET + sz);
@@ -156,7 +171,7 @@ size_t FixedChunkMemoryPool::GetFreeChunkNumInBlock(Block *block, size_t sz) con
   assert(CHECK_ALIGNED(sz));
   auto chunk_iter = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(block) + sizeof(Block));
   size_t ret = 0;
-  for (size_t i = 0; i < chunk_per_block_; ++i) {
+  for (size_t i = 0; i < block->chunk_num; ++i) {
     if (chunk_iter->status == FREE)
       ret++;
     chunk_iter = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(chunk_iter) + CHUNK_NEXT_OFFSET + sz);
diff --git a/kanon/mem/fixed_chunk_memory_pool.h b/kanon/mem/fixed_chunk_memory_pool.h
index c389d66..5babe2d 100644
--- a/kanon/mem/fixed_chunk_memory_pool.h
+++ b/kanon/mem/fixed_chunk_memory_pool.h
@@ -48,6 +48,8 @@ class FixedChunkMemoryPool {
 
   struct Block {
     Block *next;
+    size_t chunk_num; // the user may change chunk_per_block_
+    size_t padding;
   };
 
   static KANON_CORE_NO_API constexpr size_t chunk_next_space =
@@ -102,7 +104,7 @@ class FixedChunkMemoryPool {
    * \brief Get the memory usage of pool, i.e. allocated memory size
    *
    * \warning
-   *  If object size less than 8, it will be aligned to the multiplier of 8
+   *  The object size will be aligned to the multiplier of 8
    */
   KANON_CORE_API size_t GetUsage(size_t sz) const KANON_NOEXCEPT;
 
diff --git a/kanon/mem/linear_fixed_memory_pool.h b/kanon/mem/linear_fixed_memory_pool.h
index f7c0f85..912aa27 100644
--- a/kanon/mem/linear_fixed_memory_pool.h
+++ b/kanon/mem/linear_fixed_memory_pool.h
@@ -4,9 +4,10 @@
 #include <stdlib.h>
 #include <assert.h>
 
-#include <stdexcept>
+#include <new>
 #include <unordered_set>
-// #include <vector>
+#include <utility>
+#include <vector>
 
 namespace kanon {
 
@@ -21,21 +22,19 @@ class LinearFixedMemoryPool {
   static constexpr size_t BLOCK_SIZE = PAYLOAD_SIZE;
  public:
   explicit LinearFixedMemoryPool(size_t size)
-    : pool_(static_cast<T*>(malloc(size * BLOCK_SIZE)))
-    , size_(size)
+    : size_(0)
   {
-    if (pool_ == nullptr) {
-      throw std::bad_alloc{};
-    }
-
-    for (size_t i = 0; i < size; ++i)
-      free_hset_.insert(i);
+    Reserve(size);
   }
+
+  LinearFixedMemoryPool(LinearFixedMemoryPool const &) = delete;
+  LinearFixedMemoryPool &operator=(LinearFixedMemoryPool const &) = delete;
   
   ~LinearFixedMemoryPool() KANON_NOEXCEPT
   {
-    free(pool_);
-    size_ = 0;
+    for (auto const &segment : segments_) {
+      free(segment.first);
+    }
   }
 
   T *Malloc()
@@ -50,17 +49,23 @@ class LinearFixedMemoryPool {
     if (free_hset_.empty()) return (T*)malloc(BLOCK_SIZE);
     auto ret = *free_hset_.begin();
     free_hset_.erase(free_hset_.begin());
-    return pool_+ret;
+    return ret;
   }
   
   void Reserve(size_t sz)
   {
     if (size_ >= sz) return;
 
-    pool_ = static_cast<T*>(reallocarray(pool_, sz, BLOCK_SIZE));
+    // The allocated objects must stay where they are
+    const size_t num = sz - size_;
+    auto segment = static_cast<T*>(reallocarray(nullptr, num, BLOCK_SIZE));
+    if (segment == nullptr) {
+      throw std::bad_alloc{};
+    }
 
-    for (size_t i = size_; i < sz; ++i) {
-      free_hset_.insert(i);
+    segments_.emplace_back(segment, num);
+    for (size_t i = 0; i < num; ++i) {
+      free_hset_.insert(segment + i);
     }
     size_ = sz;
   }
@@ -69,18 +74,21 @@ class LinearFixedMemoryPool {
   {
     // assert(CHECK_BIT(*((char*)ptr-1), 0));
     // RESET_BIT(*((char*)ptr-1), 0);
-    if (ptr >= pool_ && ptr < pool_ + size_) {
-      free_hset_.insert(ptr-pool_);
-    } else {
-      free(ptr);
+    for (auto const &segment : segments_) {
+      if (ptr >= segment.first && ptr < segment.first + segment.second) {
+        free_hset_.insert(ptr);
+        return;
+      }
     }
+
+    free(ptr);
   }
   
   size_t size() const KANON_NOEXCEPT { return size_; }
   size_t freesize() const KANON_NOEXCEPT { return free_hset_.size(); }
  private:
-  T *pool_;
-  std::unordered_set<size_t> free_hset_;
+  std::vector<std::pair<T*, size_t>> segments_;
+  std::unordered_set<T*> free_hset_;
   size_t size_;
 };
 
-- 
2.43.0


From bf9aab9841957f8dc971758d13339974e30450c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:44 +0000
Subject: [PATCH 42/56] fix: the length codec sends chunk lists behind their
 header in debug builds

The assertion consumed the header it was checking, so the message went
out without it.
---
 example/length_codec/codec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/example/length_codec/codec.cc b/example/length_codec/codec.cc
index 4d99216..e2af2b5 100644
--- a/example/length_codec/codec.cc
+++ b/example/length_codec/codec.cc
@@ -32,7 +32,7 @@ void LengthHeaderCodec::Send(TcpConnectionPtr const& conn, OutputBuffer& buffer)
 
   LOG_DEBUG << "length = " << len;
   buffer.Prepend32(len);
-  assert(buffer.Read32() == len);
+  assert(buffer.GetReadBegin32() == len);
   conn->Send(buffer);
 }
 
-- 
2.43.0


From e659a6c272995fd93e93f0f33fef4f6ad3d3e8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:44 +0000
Subject: [PATCH 43/56] fix: the length codec hands over one message at a time

The handler was given everything received so far, so that messages which
arrive together were merged, and the length of a message close to 4G
overflowed.
---
 example/length_codec/codec.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/example/length_codec/codec.cc b/example/length_codec/codec.cc
index e2af2b5..ee47ed3 100644
--- a/example/length_codec/codec.cc
+++ b/example/length_codec/codec.cc
@@ -54,10 +54,14 @@ void LengthHeaderCodec::OnMessage(TcpConnectionPtr const& conn,
       conn->ShutdownWrite();
       break; 
       
-    } else if (buf.GetReadableSize() >= (kHeaderLength + message_len)) {
+    } else if (buf.GetReadableSize() - kHeaderLength >= message_len) {
       buf.AdvanceRead(kHeaderLength);
 
-      message_callback_(conn, buf, receive_time);
+      // The buffer may hold later messages also, the handler gets its own only
+      Buffer message;
+      message.Append(buf.GetReadBegin(), message_len);
+      buf.AdvanceRead(message_len);
+      message_callback_(conn, message, receive_time);
     } else {
       // if not a complete packet, just exit loop.
       LOG_DEBUG << "Not a complete message";
-- 
2.43.0


From 6e87f8351fe18b37f5a42ab243437cd14a837e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:35 +0000
Subject: [PATCH 44/56] fix: SetNonBlockAndCloExec sets the close-on-exec flag

---
 kanon/net/sock_api.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/kanon/net/sock_api.cc b/kanon/net/sock_api.cc
index 1f47bb5..274877b 100644
--- a/kanon/net/sock_api.cc
+++ b/kanon/net/sock_api.cc
@@ -55,10 +55,15 @@ void sock::SetNonBlockAndCloExec(FdType fd) KANON_NOEXCEPT
   auto ret = ::fcntl(fd, F_GETFL, 0);
   if (ret < 0) LOG_SYSFATAL << "fail to get file status flag";
 
-  ret |= (O_NONBLOCK | O_CLOEXEC);
-  ret = ::fcntl(fd, F_SETFL, ret);
-  if (ret < 0)
-    LOG_SYSFATAL << "fail to set file status flag(O_NONBLOCK | O_CLOEXEC)";
+  ret = ::fcntl(fd, F_SETFL, ret | O_NONBLOCK);
+  if (ret < 0) LOG_SYSFATAL << "fail to set file status flag(O_NONBLOCK)";
+
+  // The close-on-exec flag is a descriptor flag, F_SETFL ignores it
+  ret = ::fcntl(fd, F_GETFD, 0);
+  if (ret < 0) LOG_SYSFATAL << "fail to get file descriptor flag";
+
+  ret = ::fcntl(fd, F_SETFD, ret | FD_CLOEXEC);
+  if (ret < 0) LOG_SYSFATAL << "fail to set file descriptor flag(FD_CLOEXEC)";
 #endif
 }
 
-- 
2.43.0


From d7eb1c9525040c937a1c6f35d4bdd7625a5b0daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:22 +0000
Subject: [PATCH 45/56] fix: FixedVector compiles for types with a destructor

---
 kanon/algo/construct.h    | 4 +++-
 kanon/algo/fixed_vector.h | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/kanon/algo/construct.h b/kanon/algo/construct.h
index e2f3385..65d2f9e 100644
--- a/kanon/algo/construct.h
+++ b/kanon/algo/construct.h
@@ -4,6 +4,8 @@
 #include <utility>     // std::forward
 #include <type_traits> // std::is_trivially_destructible
 #include <iterator>    // std::iterator_traits
+#include <memory>      // std::addressof
+#include <new>         // placement new
 
 #include "kanon/util/macro.h"
 
@@ -48,7 +50,7 @@ template <typename FI>
 KANON_INLINE void destroyRange(FI first, FI last, std::false_type)
 {
   for (; first != last; ++first) {
-    destroy(addressof(*first));
+    destroy(std::addressof(*first));
   }
 }
 
diff --git a/kanon/algo/fixed_vector.h b/kanon/algo/fixed_vector.h
index 73a9088..e6bf567 100644
--- a/kanon/algo/fixed_vector.h
+++ b/kanon/algo/fixed_vector.h
@@ -1,8 +1,11 @@
 #ifndef KANON_ALGO_FIXED_VECTOR_H
 #define KANON_ALGO_FIXED_VECTOR_H
 
+#include <new>
 #include <stdexcept>
 #include <assert.h>
+#include <stdio.h>
+#include <stdlib.h>
 
 #include "kanon/util/macro.h"
 
-- 
2.43.0


From b5245fc25a2b3cdaa917fff56c06c41aef0406ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:22 +0000
Subject: [PATCH 46/56] fix: down_pointer_cast adjusts the pointer for a second
 base

---
 kanon/util/ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kanon/util/ptr.h b/kanon/util/ptr.h
index 53ca831..3348eec 100644
--- a/kanon/util/ptr.h
+++ b/kanon/util/ptr.h
@@ -97,7 +97,7 @@ KANON_INLINE std::unique_ptr<T, D> down_pointer_cast(std::unique_ptr<F, D> &ptr)
 #ifndef NDEBUG
   assert(ptr != nullptr && dynamic_cast<T *>(ptr.get()) != nullptr);
 #endif
-  return std::unique_ptr<T>(reinterpret_cast<T *>(ptr.release()));
+  return std::unique_ptr<T>(static_cast<T *>(ptr.release()));
 }
 
 template <typename T, typename F>
@@ -115,7 +115,7 @@ KANON_INLINE T *down_pointer_cast(F *ptr)
 #ifndef NDEBUG
   assert(ptr != nullptr && dynamic_cast<T *>(ptr) != nullptr);
 #endif
-  return reinterpret_cast<T *>(ptr);
+  return static_cast<T *>(ptr);
 }
 
 template <typename T>
-- 
2.43.0


From 70067ce9109243cc74ccf975d6d65aea599d4cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:22 +0000
Subject: [PATCH 47/56] fix: the cached host name holds names of the longest
 length

---
 kanon/process/process_info.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/kanon/process/process_info.cc b/kanon/process/process_info.cc
index 2934217..26b2408 100644
--- a/kanon/process/process_info.cc
+++ b/kanon/process/process_info.cc
@@ -1,5 +1,11 @@
 #include "kanon/process/process_info.h"
 
+#include <limits.h>
+
+#ifndef HOST_NAME_MAX
+#define HOST_NAME_MAX 255
+#endif
+
 using namespace kanon;
 
 StringView 
@@ -22,8 +28,8 @@ process::PidString() KANON_NOEXCEPT {
 StringView
 process::Hostname() KANON_NOEXCEPT {
   // hostname is limited to HOST_NAME_MAX in posix,
-  // it is 64 in linux.
-  static char hostname_cache[64];
+  // it is 64 in linux, the terminator not included.
+  static char hostname_cache[HOST_NAME_MAX + 1];
   static bool has_cache = false;
   
   if (!has_cache) {
-- 
2.43.0


From 840ad82daed90d77e4bf004e443c1e770670e793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:03 +0000
Subject: [PATCH 48/56] fix: numeric casts do not share their buffers between
 threads

---
 kanon/string/lexical_cast.cc     | 2 +-
 kanon/string/lexical_cast.h      | 7 ++++---
 kanon/string/string_view_util.cc | 8 ++++----
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/kanon/string/lexical_cast.cc b/kanon/string/lexical_cast.cc
index 4f81149..3e6da4b 100644
--- a/kanon/string/lexical_cast.cc
+++ b/kanon/string/lexical_cast.cc
@@ -1,4 +1,4 @@
 #include "kanon/string/lexical_cast.h"
 
 using namespace kanon;
-CastLexicalStream kanon::_cast_stream;
+thread_local CastLexicalStream kanon::_cast_stream;
diff --git a/kanon/string/lexical_cast.h b/kanon/string/lexical_cast.h
index f2f44c2..becf7f9 100644
--- a/kanon/string/lexical_cast.h
+++ b/kanon/string/lexical_cast.h
@@ -25,7 +25,9 @@ class LexicalCast {
   }
 };
 
-extern CastLexicalStream _cast_stream;
+// The results that refer to the stream are valid until the next cast in the same
+// thread
+extern thread_local CastLexicalStream _cast_stream;
 
 #define DST_STRING_SPECIALIZATION(type)                                        \
   template <typename Src>                                                      \
@@ -55,8 +57,6 @@ class LexicalCast<char const *, Src, false> {
 DST_STRING_SPECIALIZATION(std::string);
 DST_STRING_SPECIALIZATION(kanon::StringView);
 
-static char lexical_cvt_buf[64];
-
 namespace detail {
 
 // str[size] must be the null terminator.
@@ -99,6 +99,7 @@ kanon::optional<Integer> ParseInteger(char const *str, size_t size, Func func)
     static kanon::optional<integer_type> apply(str_type const &src)            \
     {                                                                          \
       if (src.size() > 63) return kanon::make_null_optional<integer_type>();   \
+      char lexical_cvt_buf[64];                                                \
       ::strncpy(lexical_cvt_buf, src.data(), src.size());                      \
       lexical_cvt_buf[src.size()] = 0;                                         \
                                                                                \
diff --git a/kanon/string/string_view_util.cc b/kanon/string/string_view_util.cc
index ba2b153..6b5459f 100644
--- a/kanon/string/string_view_util.cc
+++ b/kanon/string/string_view_util.cc
@@ -10,7 +10,7 @@ optional<uint64_t> kanon::StringViewToU64(StringView const &sv,
                                           int base) KANON_NOEXCEPT
 {
   assert(sv.size() < 64);
-  static char buf[64];
+  char buf[64];
   memcpy(buf, sv.data(), sv.size());
   buf[sv.size()] = 0;
   char *end = NULL;
@@ -25,7 +25,7 @@ optional<uint32_t> kanon::StringViewToU32(StringView const &sv,
                                           int base) KANON_NOEXCEPT
 {
   assert(sv.size() < 32);
-  static char buf[32];
+  char buf[32];
   memcpy(buf, sv.data(), sv.size());
   buf[sv.size()] = 0;
   char *end = NULL;
@@ -40,7 +40,7 @@ optional<int32_t> kanon::StringViewTo32(StringView const &sv,
                                         int base) KANON_NOEXCEPT
 {
   assert(sv.size() < 32);
-  static char buf[32];
+  char buf[32];
   memcpy(buf, sv.data(), sv.size());
   buf[sv.size()] = 0;
   char *end = NULL;
@@ -55,7 +55,7 @@ optional<int64_t> kanon::StringViewTo64(StringView const &sv,
                                         int base) KANON_NOEXCEPT
 {
   assert(sv.size() < 64);
-  static char buf[64];
+  char buf[64];
   memcpy(buf, sv.data(), sv.size());
   buf[sv.size()] = 0;
   char *end = NULL;
-- 
2.43.0


From e04c5909b18c1ebc4a17079f0bd82f5c5967d195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:38 +0000
Subject: [PATCH 49/56] fix: RPC call numbers start at zero and are never
 shared between threads

---
 kanon/rpc/rpc_channel.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/kanon/rpc/rpc_channel.cc b/kanon/rpc/rpc_channel.cc
index d5bf897..cfab1cf 100644
--- a/kanon/rpc/rpc_channel.cc
+++ b/kanon/rpc/rpc_channel.cc
@@ -21,12 +21,18 @@ using namespace kanon::protobuf::rpc;
 
 static char const *GetRpcErrorString(RpcMessage::ErrorCode error) noexcept;
 
-RpcChannel::RpcChannel() = default;
+RpcChannel::RpcChannel()
+  : id_(0)
+  , codec_()
+  , services_(nullptr)
+{
+}
 
 // Constructor does not recommended to do many thing except for initial work
 RpcChannel::RpcChannel(TcpConnectionPtr const &conn)
   : id_(0)
   , codec_()
+  , services_(nullptr)
 {
   SetConnection(conn);
 }
@@ -50,9 +56,7 @@ void RpcChannel::CallMethod(MethodDescriptor const *method,
   RpcController *contr = kanon::down_pointer_cast<RpcController>(controller);
 
   RpcMessage message;
-  auto id = id_.load(std::memory_order_relaxed);
-  message.set_id(id);
-  id_.fetch_add(1, std::memory_order_relaxed);
+  message.set_id(id_.fetch_add(1, std::memory_order_relaxed));
 
   message.set_type(RpcMessage::kRequest);
   message.set_request(request->SerializeAsString());
-- 
2.43.0


From 8b40bdb72d0190fe20f6062953e0cf1e67eeb0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:38 +0000
Subject: [PATCH 50/56] fix: a message whose size header has just arrived does
 not abort

---
 kanon/protobuf/protobuf_codec2.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/protobuf/protobuf_codec2.cc b/kanon/protobuf/protobuf_codec2.cc
index 534b777..0489895 100644
--- a/kanon/protobuf/protobuf_codec2.cc
+++ b/kanon/protobuf/protobuf_codec2.cc
@@ -91,7 +91,7 @@ void ProtobufCodec2::SetUpConnection(TcpConnectionPtr const &conn)
       }
 
       KANON_ASSERT(
-          buffer.GetReadableSize() > size_header_len,
+          buffer.GetReadableSize() >= size_header_len,
           "Buffer's readable size must be >= the length of size_header");
       // Waiting complete message
       if (buffer.GetReadableSize() - size_header_len < size_header) break;
-- 
2.43.0


From d6a3e4d52fd31cd541fea60fbc92d414ffe998e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:38 +0000
Subject: [PATCH 51/56] fix: many messages received at once are not taken for
 one too large message

---
 kanon/protobuf/generic_pb_codec.cc | 11 ++---------
 kanon/protobuf/protobuf_codec2.cc  | 11 ++---------
 2 files changed, 4 insertions(+), 18 deletions(-)

diff --git a/kanon/protobuf/generic_pb_codec.cc b/kanon/protobuf/generic_pb_codec.cc
index 1fed446..d451298 100644
--- a/kanon/protobuf/generic_pb_codec.cc
+++ b/kanon/protobuf/generic_pb_codec.cc
@@ -108,15 +108,8 @@ void GenericPbCodec::OnMessage(TcpConnectionPtr const &conn, Buffer &buffer,
    * 3.2 Otherwise, call message_callback_
    */
 
-  // Discard too large buffer early to avoid making memory overflow
-  if (buffer.GetReadableSize() >= kMaxMessageLength) {
-    LOG_WARN_KANON_PROTOBUF << "A single message too large, just discard";
-    buffer.AdvanceAll();
-    buffer.Shrink();
-    error_callback_(conn, kInvalidLength);
-    return;
-  }
-
+  // A too large message is refused by its size header,
+  // the buffer may contain many complete messages
   // Use while here since maybe not just one message in buffer
   while (buffer.GetReadableSize() >= kMinMessageLength) {
     const uint32_t size_header = buffer.GetReadBegin32();
diff --git a/kanon/protobuf/protobuf_codec2.cc b/kanon/protobuf/protobuf_codec2.cc
index 0489895..306d35d 100644
--- a/kanon/protobuf/protobuf_codec2.cc
+++ b/kanon/protobuf/protobuf_codec2.cc
@@ -45,15 +45,8 @@ void ProtobufCodec2::SetUpConnection(TcpConnectionPtr const &conn)
 {
   conn->SetMessageCallback([this](TcpConnectionPtr const &conn, Buffer &buffer,
                                   TimeStamp receive_time) {
-    // Discard too large buffer early to avoid making memory overflow
-    if (buffer.GetReadableSize() >= max_size_) {
-      LOG_WARN_KANON_PROTOBUF << "A single message too large, just discard";
-      buffer.AdvanceAll();
-      buffer.Shrink();
-      error_callback_(conn, E_INVALID_SIZE_HEADER);
-      return;
-    }
-
+    // A too large message is refused by its size header,
+    // the buffer may contain many complete messages
     uint32_t size_header = 0;
     size_t size_header_len = 0;
     // Use while here since maybe not just one message in buffer
-- 
2.43.0


From c90e9bec192518f6b40dd5fc3ea7cc07fea031ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:40 +0000
Subject: [PATCH 52/56] fix: a remote method may be completed after its
 connection has closed

---
 kanon/rpc/rpc_channel.cc | 16 ++++++----------
 kanon/rpc/rpc_channel.h  |  6 +++++-
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/kanon/rpc/rpc_channel.cc b/kanon/rpc/rpc_channel.cc
index cfab1cf..61f42bc 100644
--- a/kanon/rpc/rpc_channel.cc
+++ b/kanon/rpc/rpc_channel.cc
@@ -106,7 +106,8 @@ void RpcChannel::SendRpcRequest(RpcMessage &message, Message *response,
   }
 }
 
-void RpcChannel::SendRpcResponse(Message *response, uint64_t id)
+void RpcChannel::SendRpcResponse(TcpConnectionPtr const &conn,
+                                 Message *response, uint64_t id)
 {
   // The method is completed, fill RpcMessae and send
   RpcMessage message;
@@ -114,7 +115,8 @@ void RpcChannel::SendRpcResponse(Message *response, uint64_t id)
   message.set_response(response->SerializeAsString());
   message.set_type(RpcMessage::kResponse);
 
-  codec_.Send(conn_, &message);
+  Codec codec;
+  codec.Send(conn, &message);
   // The response is new by Service::GetResponsePrototype().
   // Must delete it to avoid memory leak.
   delete response;
@@ -286,12 +288,6 @@ void RpcChannel::OnRpcMessageForRequest(TcpConnectionPtr const &conn,
         Message *response = service->GetResponsePrototype(method).New();
 
         if (request->ParseFromString(message->request())) {
-          // Closure see google/protobuf/stubs/callback.h
-          // NewCallback() support one or two argument
-          // NewCallback() accept type should be perfect match, i.e. don't allow
-          // implicit cast e.g. void Foo(std::string); NewCallback(&Foo, "a");
-          // // Don't works
-          //
           // The Service::CallMethod is a virtual function,
           // will call the named overrided function in the concrete
           // derived class of Service.
@@ -304,8 +300,8 @@ void RpcChannel::OnRpcMessageForRequest(TcpConnectionPtr const &conn,
           }
           service->CallMethod(
               method, controller, request, response,
-              PROTOBUF::NewCallback(this, &RpcChannel::SendRpcResponse,
-                                    response, message->id()));
+              NewCallable(std::bind(&RpcChannel::SendRpcResponse, conn_,
+                                    response, message->id())));
         } else {
           error_code = RpcMessage::kInvalidRequest;
         }
diff --git a/kanon/rpc/rpc_channel.h b/kanon/rpc/rpc_channel.h
index 1124e24..d1128d6 100644
--- a/kanon/rpc/rpc_channel.h
+++ b/kanon/rpc/rpc_channel.h
@@ -95,8 +95,12 @@ class RpcChannel
   /**
    * Fill response and send
    * Used for server side
+   *
+   * The method may be completed after the connection is closed,
+   * i.e. the channel has been destroyed
    */
-  void SendRpcResponse(PROTOBUF::Message *response, uint64_t id);
+  static void SendRpcResponse(TcpConnectionPtr const &conn,
+                              PROTOBUF::Message *response, uint64_t id);
 
  private:
   TcpConnectionPtr conn_;
-- 
2.43.0


From cf66a59f3b655402f14ab3f6ea631f3325abffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:07 +0000
Subject: [PATCH 53/56] Revert the two repairs of the example length codec

The examples are left as they were.
---
 example/length_codec/codec.cc | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/example/length_codec/codec.cc b/example/length_codec/codec.cc
index ee47ed3..4d99216 100644
--- a/example/length_codec/codec.cc
+++ b/example/length_codec/codec.cc
@@ -32,7 +32,7 @@ void LengthHeaderCodec::Send(TcpConnectionPtr const& conn, OutputBuffer& buffer)
 
   LOG_DEBUG << "length = " << len;
   buffer.Prepend32(len);
-  assert(buffer.GetReadBegin32() == len);
+  assert(buffer.Read32() == len);
   conn->Send(buffer);
 }
 
@@ -54,14 +54,10 @@ void LengthHeaderCodec::OnMessage(TcpConnectionPtr const& conn,
       conn->ShutdownWrite();
       break; 
       
-    } else if (buf.GetReadableSize() - kHeaderLength >= message_len) {
+    } else if (buf.GetReadableSize() >= (kHeaderLength + message_len)) {
       buf.AdvanceRead(kHeaderLength);
 
-      // The buffer may hold later messages also, the handler gets its own only
-      Buffer message;
-      message.Append(buf.GetReadBegin(), message_len);
-      buf.AdvanceRead(message_len);
-      message_callback_(conn, message, receive_time);
+      message_callback_(conn, buf, receive_time);
     } else {
       // if not a complete packet, just exit loop.
       LOG_DEBUG << "Not a complete message";
-- 
2.43.0


From 8defb605e9b8a103a14196acbdeb442a9025b907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:28 +0000
Subject: [PATCH 54/56] fix: ForwardList::remove() may be given an element of
 the list

---
 kanon/algo/forward_list/forward_list_impl.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index 089242f..930b59f 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -366,16 +366,17 @@ FORWARD_LIST_TEMPLATE_LIST
 template <typename UnaryPred>
 auto FORWARD_LIST_TEMPLATE::remove_if(UnaryPred pred) -> SizeType
 {
-  SizeType count = 0;
+  // The value compared by pred may be in this list,
+  // release the removed elements in the end
+  Self removed;
 
   auto it = search_before(pred);
   while (it != end()) {
-    ++count;
-    erase_after(it);
+    removed.push_front(extract_after(it));
     it = search_before(pred, it);
   }
 
-  return count;
+  return removed.size();
 }
 
 FORWARD_LIST_TEMPLATE_LIST
-- 
2.43.0


From 4934fd9dedc17173f9e5156301140fae7511dc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:28 +0000
Subject: [PATCH 55/56] fix: splicing a ForwardList into itself keeps the
 elements

---
 kanon/algo/forward_list/forward_list_impl.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index 930b59f..2237757 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -324,6 +324,9 @@ FORWARD_LIST_TEMPLATE_LIST
 void FORWARD_LIST_TEMPLATE::splice_after(ConstIterator pos, Self &list,
                                          ConstIterator it)
 {
+  // The element is there already
+  if (pos == it || pos == it.next()) return;
+
   insert_after(pos, list.extract_after(it));
 }
 
@@ -332,6 +335,9 @@ void FORWARD_LIST_TEMPLATE::splice_after(ConstIterator pos, Self &list,
                                          ConstIterator first,
                                          ConstIterator last)
 {
+  // The elements are there already
+  if (pos == first) return;
+
   // (first, last)
   while (first.next() != last) {
     insert_after(pos, list.extract_after(first));
-- 
2.43.0


From bec58659f14ac05d59537be919045729cc30e7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:57 +0000
Subject: [PATCH 56/56] fix: a throwing constructor during
 ReservedArray::Grow() leaks and loses nothing

---
 kanon/algo/reserved_array.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/kanon/algo/reserved_array.h b/kanon/algo/reserved_array.h
index ed9cae4..2c4e3cf 100644
--- a/kanon/algo/reserved_array.h
+++ b/kanon/algo/reserved_array.h
@@ -261,11 +261,21 @@ class ReservedArray : protected Alloc {
       throw std::bad_alloc{};
     }
 
-    auto new_end = new_data;
+    const auto added = new_data + GetSize();
+    const auto new_end = new_data + n;
 
     try {
-      new_end = zstl::UninitializedMoveIfNoexcept(data_, end_, new_end);
-      new_end = zstl::UninitializedDefaultConstruct(new_end, new_data + n);
+      // Construct the added elements first,
+      // the old elements are not changed if a constructor throws
+      zstl::UninitializedDefaultConstruct(added, new_end);
+
+      try {
+        zstl::UninitializedMoveIfNoexcept(data_, end_, new_data);
+      }
+      catch (...) {
+        zstl::DestroyRange(added, new_end);
+        throw;
+      }
     }
     catch (...) {
       AllocTraits::deallocate(*this, new_data, n);
-- 
2.43.0

