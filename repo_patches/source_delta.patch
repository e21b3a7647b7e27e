From 8660cbff4fb7aa8e9370b356a29682f6ee41a0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:33 +0000
Subject: [PATCH 001/106] fix: digest: report files that cannot be read instead
 of digesting what was read so far

---
 mbo/digest/digest_main.cc | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/mbo/digest/digest_main.cc b/mbo/digest/digest_main.cc
index 3548ede..4418775 100644
--- a/mbo/digest/digest_main.cc
+++ b/mbo/digest/digest_main.cc
@@ -114,22 +114,26 @@ namespace {
 
 namespace fs = std::filesystem;
 
-// Digests a stream in chunks (no whole-file buffering).
+// Digests a stream in chunks (no whole-file buffering). Returns `std::nullopt`
+// if the stream could not be read to its end (e.g. a directory or I/O error).
 template<typename Algo>
-std::string HexDigestStream(std::istream& input) {
+std::optional<std::string> HexDigestStream(std::istream& input) {
   static constexpr std::size_t kChunkSize = 1ULL << 16U;
   Streamer<Algo> stream;
   std::array<char, kChunkSize> buffer = {};
   while (input.read(buffer.data(), kChunkSize).gcount() > 0) {
     stream.Update(std::string_view(buffer.data(), static_cast<std::size_t>(input.gcount())));
   }
+  if (input.bad()) {
+    return std::nullopt;
+  }
   return ToHexString(stream.Finalize());
 }
 
 // The SHAKE XOFs have no inherent output size; the CLI prints 32 bytes.
 constexpr std::size_t kShakeOutputSize = 32;
 
-using DigestFunc = std::string (*)(std::istream&);
+using DigestFunc = std::optional<std::string> (*)(std::istream&);
 
 struct NamedAlgorithm {
   std::string_view name;
@@ -211,7 +215,8 @@ void CheckStream(const NamedAlgorithm& algorithm, std::istream& sums, CheckStats
     }
     const auto [hex, file_name] = *parsed;
     std::ifstream input{fs::path(file_name), std::ios::binary};
-    if (!input) {
+    const std::optional<std::string> computed = input ? algorithm.func(input) : std::nullopt;
+    if (!computed.has_value()) {
       if (!ignore_missing) {
         ++stats.unreadable;
         if (!silent) {
@@ -220,7 +225,7 @@ void CheckStream(const NamedAlgorithm& algorithm, std::istream& sums, CheckStats
       }
       continue;
     }
-    if (algorithm.func(input) == ToLowerHex(hex)) {
+    if (*computed == ToLowerHex(hex)) {
       ++stats.verified;
       if (!quiet) {
         std::cout << file_name << ": OK\n";
@@ -248,6 +253,10 @@ int RunCheck(const NamedAlgorithm& algorithm, const std::vector<std::string_view
       return 1;
     }
     CheckStream(algorithm, sums, stats);
+    if (sums.bad()) {
+      std::cerr << file_name << ": Cannot read checksum file.\n";
+      return 1;
+    }
   }
   const bool silent = absl::GetFlag(FLAGS_status);
   auto warn = [&](std::size_t count, std::string_view what) {
@@ -274,7 +283,12 @@ int Run(DigestFunc digest, const std::vector<std::string_view>& files) {
   int result = 0;
   for (const std::string_view file_name : files) {
     if (file_name == "-") {
-      Print(digest(std::cin), file_name);
+      if (const std::optional<std::string> hex = digest(std::cin); hex.has_value()) {
+        Print(*hex, file_name);
+      } else {
+        std::cerr << file_name << ": Cannot read file.\n";
+        result = 1;
+      }
       continue;
     }
     const fs::path path(file_name);
@@ -287,12 +301,13 @@ int Run(DigestFunc digest, const std::vector<std::string_view>& files) {
       continue;
     }
     std::ifstream input(path, std::ios::binary);
-    if (!input) {
+    const std::optional<std::string> hex = input ? digest(input) : std::nullopt;
+    if (!hex.has_value()) {
       std::cerr << file_name << ": Cannot read file.\n";
       result = 1;
       continue;
     }
-    Print(digest(input), file_name);
+    Print(*hex, file_name);
   }
   return result;
 }
-- 
2.43.0


From eb0ecbe25e1850381ad65a67c78fe0d595c13fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:35 +0000
Subject: [PATCH 002/106] fix: types: make Required and RefWrap comparable with
 their own kind and Required hashable

---
 mbo/types/ref_wrap.h |  3 ++-
 mbo/types/required.h | 11 ++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/mbo/types/ref_wrap.h b/mbo/types/ref_wrap.h
index f902984..5858476 100644
--- a/mbo/types/ref_wrap.h
+++ b/mbo/types/ref_wrap.h
@@ -90,7 +90,8 @@ class RefWrap final {
     return *ptr_ <=> *other.ptr_;
   }
 
-  template<std::three_way_comparable_with<T> U>
+  template<typename U>
+  requires(!std::same_as<U, RefWrap> && std::three_way_comparable_with<U, T>)
   constexpr auto operator<=>(const U& other) const noexcept {
     if (ptr_ == &other) {
       return decltype(*ptr_ <=> other)::equivalent;
diff --git a/mbo/types/required.h b/mbo/types/required.h
index 93f4b42..2d37ad3 100644
--- a/mbo/types/required.h
+++ b/mbo/types/required.h
@@ -118,13 +118,14 @@ class Required {
 
   template<std::three_way_comparable_with<T> U>
   constexpr auto operator<=>(const Required<U>& other) const noexcept {
-    if (value_ == other) {
-      return decltype(value_ <=> other)::equivalent;
+    if (value_ == other.get()) {
+      return decltype(value_ <=> other.get())::equivalent;
     }
-    return value_ <=> other.value_;
+    return value_ <=> other.get();
   }
 
-  template<std::three_way_comparable_with<T> U>
+  template<typename U>
+  requires(!std::same_as<U, Required> && std::three_way_comparable_with<U, T>)
   constexpr auto operator<=>(const U& other) const noexcept {
     if (value_ == other) {
       return decltype(value_ <=> other)::equivalent;
@@ -134,7 +135,7 @@ class Required {
 
   template<typename H>
   friend H AbslHashValue(H hash, const Required<T>& v) {
-    return H::combine(std::move(hash), absl::HashOf<>(*v.value_));
+    return H::combine(std::move(hash), absl::HashOf<>(v.value_));
   }
 
   template<typename Sink>
-- 
2.43.0


From 87f6dd469819b859fa1890a57962ef5be89ec7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:48 +0000
Subject: [PATCH 003/106] fix: log: make MBO_LOG_CHECK usable outside of
 namespace mbo::log

---
 mbo/log/scoped_log_check.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/log/scoped_log_check.h b/mbo/log/scoped_log_check.h
index cd205fc..07f88a3 100644
--- a/mbo/log/scoped_log_check.h
+++ b/mbo/log/scoped_log_check.h
@@ -142,7 +142,7 @@ void ScopedLogCheck(bool, std::string_view, const Disallowed&&) {  // NOLINT(*-n
 // A local optimized check implementation, it only processes the log stream if its `check` is false.
 #define MBO_LOG_CHECK(check)                            \
   while (!(check))                                      \
-  mbo::log::ScopedStream<ScopedStreamMode::kQuickExit>( \
+  mbo::log::ScopedStream<mbo::log::ScopedStreamMode::kQuickExit>( \
       std::source_location::current(), std::cerr, "Failed MBO_LOG_CHECK(" #check ")")
 
 #endif  // MBO_LOG_SCOPED_LOG_CHECK_H_
-- 
2.43.0


From 235125ffa4e980d4103e35c135ea74d615aa68de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:55 +0000
Subject: [PATCH 004/106] fix: log: print the message of a scoped stream that
 defaults to stderr

---
 mbo/log/scoped_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/log/scoped_stream.h b/mbo/log/scoped_stream.h
index 090ddc2..afc32ff 100644
--- a/mbo/log/scoped_stream.h
+++ b/mbo/log/scoped_stream.h
@@ -205,7 +205,7 @@ class ScopedStream {
   // LCOV_MERGE_FUNC_LINE: Count the shared class-template definition once.
   void OutPrefix(std::ostream& out) {
     out << "[" << loc_.file_name() << ":" << loc_.line() << "] @" << loc_.function_name();
-    if constexpr (!std::same_as<OStreamT, Voidifier> && !std::same_as<MessageT, Voidifier>) {
+    if constexpr (!std::same_as<MessageT, Voidifier>) {
       if (!msg_.empty()) {
         out << " : " << msg_;
       }
-- 
2.43.0


From e468423bd72a5b5ddec9ba76d0a90f3aa2813c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:23 +0000
Subject: [PATCH 005/106] fix: types: make IsSet recognise std::set

---
 mbo/types/traits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbo/types/traits.h b/mbo/types/traits.h
index 48cc6be..8506478 100644
--- a/mbo/types/traits.h
+++ b/mbo/types/traits.h
@@ -361,10 +361,10 @@ concept IsPairFirstStr = IsPair<T> && requires(T pair) {
 
 template<typename T>
 concept IsSet = requires {
-  typename T::value_type;
   typename T::key_type;
+  typename T::key_compare;
   typename T::allocator_type;
-  requires std::same_as<T, std::set<typename T::value_type, typename T::key_type, typename T::allocator_type>>;
+  requires std::same_as<T, std::set<typename T::key_type, typename T::key_compare, typename T::allocator_type>>;
 };
 
 template<typename T>
-- 
2.43.0


From addde9edc46c63a97ed35cd11730350e7d4b90c5 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 17:19:19 +0000
Subject: [PATCH 006/106] fix: container: make LimitedVector copy assignable

The copy assignment assigned the array of element slots, which does not
compile. Copy the elements one by one, as the copy constructor does.
---
 mbo/container/limited_vector.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index 5efcb89..a0ab8d4 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -146,8 +146,9 @@ class LimitedVector final {
   constexpr LimitedVector& operator=(const LimitedVector& other) noexcept {
     if (this != &other) {
       clear();
-      size_ = other.size_;
-      values_ = other.values_;
+      for (; size_ < other.size_; ++size_) {
+        std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[size_].data), other.values_[size_].data);
+      }
     }
     return *this;
   }
-- 
2.43.0


From 3d9ae9a88623a0aac526e1b43af95b49a90b4232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:31 +0000
Subject: [PATCH 007/106] fix: container: keep element lifetimes in
 LimitedVector balanced

Inserting in the middle, erasing, moving from and swapping vectors assigned to
slots that hold no object, constructed over live elements, or dropped elements
without destroying them. Relocate elements instead. Further, self move
assignment no longer empties the vector and inserting an element of the vector
itself no longer inserts the moved-from element.
---
 mbo/container/limited_vector.h | 81 ++++++++++++++++++++--------------
 1 file changed, 47 insertions(+), 34 deletions(-)

diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index a0ab8d4..5cbb7c4 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -158,16 +158,19 @@ class LimitedVector final {
       std::construct_at(
           const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.values_[size_].data));
     }
-    other.size_ = 0;
+    other.clear();
   }
 
   constexpr LimitedVector& operator=(LimitedVector&& other) noexcept {
+    if (this == &other) {
+      return *this;
+    }
     clear();
     for (; size_ < other.size_; ++size_) {
       std::construct_at(
           const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.values_[size_].data));
     }
-    other.size_ = 0;
+    other.clear();
     return *this;
   }
 
@@ -229,7 +232,7 @@ class LimitedVector final {
     for (; size_ < other.size(); ++size_) {
       std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.at(size_)));
     }
-    other.size_ = 0;
+    other.clear();
   }
 
   template<types::ConstructibleInto<T> U, auto OtherN>
@@ -241,7 +244,7 @@ class LimitedVector final {
     for (; size_ < other.size(); ++size_) {
       std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.at(size_)));
     }
-    other.size_ = 0;
+    other.clear();
     return *this;
   }
 
@@ -279,11 +282,13 @@ class LimitedVector final {
     }
     const std::size_t other_size = other.size_;
     const std::size_t this_size = size_;
-    for (; pos < size_; ++pos) {
+    for (; pos < this_size; ++pos) {
       other.emplace_back(std::move(values_[pos].data));
+      std::destroy_at(&values_[pos].data);
     }
-    for (; pos < other.size(); ++pos) {
-      emplace_back(std::move(other.at(pos)));
+    for (; pos < other_size; ++pos) {
+      emplace_back(std::move(other.values_[pos].data));
+      std::destroy_at(&other.values_[pos].data);
     }
     size_ = other_size;
     other.size_ = this_size;
@@ -293,25 +298,18 @@ class LimitedVector final {
   constexpr iterator emplace(const_iterator pos, Args&&... args) noexcept(!kRequireThrows) {
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `emplace` at capacity.");
     MBO_CONFIG_REQUIRE(&values_[0].data <= pos && pos <= &values_[size_].data, "Invalid `pos`.");
-    iterator dst = end();
-    for (; dst > pos; --dst) {
-      *dst = std::move(*std::prev(dst));
-    }
-    std::construct_at(const_cast<std::remove_const_t<T>*>(dst), std::forward<Args>(args)...);
-    ++size_;
+    std::remove_const_t<T> value(std::forward<Args>(args)...);  // The `args` may refer to an element.
+    const auto dst = const_cast<iterator>(pos);                 // NOLINT(cppcoreguidelines-pro-type-const-cast)
+    const std::size_t index = move_backward(dst, 1);
+    std::construct_at(&values_[index].data, std::move(value));
     return dst;
   }
 
   constexpr iterator erase(const_iterator pos) noexcept(!kRequireThrows) {
     // NOLINTBEGIN(cppcoreguidelines-pro-type-const-cast)
     MBO_CONFIG_REQUIRE(&values_[0].data <= pos && pos < &values_[size_].data, "Invalid `pos`.");
-    auto dst = const_cast<iterator>(pos);
-    --size_;
-    std::destroy_at(dst);
-    for (; dst < end(); ++dst) {
-      *dst = std::move(*std::next(dst));
-    }
-    return pos > end() ? end() : const_cast<iterator>(pos);
+    move_forward(pos, std::next(pos));
+    return const_cast<iterator>(pos);
     // NOLINTEND(cppcoreguidelines-pro-type-const-cast)
   }
 
@@ -319,17 +317,7 @@ class LimitedVector final {
     // NOLINTBEGIN(cppcoreguidelines-pro-type-const-cast)
     MBO_CONFIG_REQUIRE(
         &values_[0].data <= first && first <= last && last <= &values_[size_].data, "Invalid `first` or `last`.");
-    std::size_t deleted = 0;
-    for (const_iterator it = first; it < last; ++it) {
-      std::destroy_at(it);
-      ++deleted;
-    }
-    auto dst = const_cast<iterator>(first);
-    auto src = const_cast<iterator>(last);
-    for (; src < end(); ++src, ++dst) {
-      *dst = std::move(*src);
-    }
-    size_ -= deleted;
+    move_forward(first, last);
     return const_cast<iterator>(first);
     // NOLINTEND(cppcoreguidelines-pro-type-const-cast)
   }
@@ -392,8 +380,9 @@ class LimitedVector final {
     // Clang does not like `std::distance`. The issue is that the iterators point into the union.
     // That makes them technically not point into an array AND that is indeed not allowed by C++.
     const auto dst = const_cast<iterator>(pos);  // NOLINT(cppcoreguidelines-pro-type-const-cast)
-    move_backward(dst, 1);
-    std::construct_at(const_cast<std::remove_const_t<T>*>(&*dst), std::forward<U>(value));
+    std::remove_const_t<T> new_value(std::forward<U>(value));  // The `value` may be (part of) an element.
+    const std::size_t index = move_backward(dst, 1);
+    std::construct_at(&values_[index].data, std::move(new_value));
     return dst;
   }
 
@@ -404,9 +393,10 @@ class LimitedVector final {
     if (count == 0) {
       return dst;
     }
+    const std::remove_const_t<T> new_value(value);  // The `value` may be (part of) an element.
     std::size_t index = move_backward(dst, count);
     while (count > 0) {
-      std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[index].data), value);
+      std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[index].data), new_value);
       ++index;
       --count;
     }
@@ -506,16 +496,39 @@ class LimitedVector final {
   constexpr const_pointer data() const noexcept { return &values_[0].data; }
 
  private:
+  // Relocates the elements in [dst, end()) by `count` slots, so that the slots in [dst, dst + count) are uninitialized.
   constexpr std::size_t move_backward(iterator dst, std::size_t count) {
     std::size_t pos = size_;
     while (dst < &values_[pos].data) {
       --pos;
       std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[pos + count].data), std::move(values_[pos].data));
+      std::destroy_at(&values_[pos].data);
     }
     size_ += count;
     return pos;
   }
 
+  // Destroys the elements in [first, last) and relocates all elements that follow them to `first`.
+  constexpr void move_forward(const_iterator first, const_iterator last) {
+    std::size_t src = size_;
+    while (last < &values_[src].data) {
+      --src;
+    }
+    std::size_t dst = src;
+    while (first < &values_[dst].data) {
+      --dst;
+      std::destroy_at(&values_[dst].data);
+    }
+    if (dst == src) {
+      return;
+    }
+    for (; src < size_; ++src, ++dst) {
+      std::construct_at(&values_[dst].data, std::move(values_[src].data));
+      std::destroy_at(&values_[src].data);
+    }
+    size_ = dst;
+  }
+
   std::size_t size_{0};
   // Array would be better but that does not work with ASAN builds.
   // std::array<Data, Capacity == 0 ? 1 : Capacity> values_;
-- 
2.43.0


From 9e18bf8a9d3aaeb74b0fd2b1d7a5be9a95cfa25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 008/106] fix: container: let copies of LimitedSet and
 LimitedMap keep their order

Copy assignment assigned the array of slots and key_comp() returned itself,
neither of which compiles. Copies, moves and swaps kept the own comparator for
elements that are in the order of the other one. Self move assignment through
the base emptied the container.
---
 mbo/container/internal/limited_ordered.h | 37 +++++++++++++++++-------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 7c3b545..b097ab3 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -196,7 +196,7 @@ class [[nodiscard]] LimitedOrdered {
       return key_comp(GetKey(lhs), GetKey(rhs));
     }
 
-    const key_compare key_comp;
+    key_compare key_comp;
   };
 
   // NOTE: The name is misleading but must adhere to the STL: The comparator only
@@ -417,7 +417,7 @@ class [[nodiscard]] LimitedOrdered {
 
   // NOLINTBEGIN(cppcoreguidelines-pro-type-const-cast)
 
-  constexpr LimitedOrdered(const LimitedOrdered& other) noexcept {
+  constexpr LimitedOrdered(const LimitedOrdered& other) noexcept : key_comp_(other.key_comp_) {
     for (; size_ < other.size_; ++size_) {
       std::construct_at(const_cast<RawValue*>(&values_[size_].data), other.values_[size_].data);
     }
@@ -426,25 +426,31 @@ class [[nodiscard]] LimitedOrdered {
   constexpr LimitedOrdered& operator=(const LimitedOrdered& other) noexcept {
     if (this != &other) {
       clear();
-      size_ = other.size_;
-      values_ = other.values_;
+      copy_comp(other.key_comp_);
+      for (; size_ < other.size_; ++size_) {
+        std::construct_at(const_cast<RawValue*>(&values_[size_].data), other.values_[size_].data);
+      }
     }
     return *this;
   }
 
-  constexpr LimitedOrdered(LimitedOrdered&& other) noexcept {
+  constexpr LimitedOrdered(LimitedOrdered&& other) noexcept : key_comp_(other.key_comp_) {
     for (; size_ < other.size_; ++size_) {
       std::construct_at(const_cast<RawValue*>(&values_[size_].data), std::move(other.values_[size_].data));
     }
-    other.size_ = 0;
+    other.clear();
   }
 
   constexpr LimitedOrdered& operator=(LimitedOrdered&& other) noexcept {
+    if (this == &other) {
+      return *this;
+    }
     clear();
+    copy_comp(other.key_comp_);
     for (; size_ < other.size_; ++size_) {
       std::construct_at(const_cast<RawValue*>(&values_[size_].data), std::move(other.values_[size_].data));
     }
-    other.size_ = 0;
+    other.clear();
     return *this;
   }
 
@@ -898,6 +904,9 @@ class [[nodiscard]] LimitedOrdered {
     }
     size_ = other_size;
     other.size_ = this_size;
+    const key_compare this_comp = key_comp_;
+    copy_comp(other.key_comp_);
+    other.copy_comp(this_comp);
   }
 
   template<typename... Args>
@@ -1146,7 +1155,7 @@ class [[nodiscard]] LimitedOrdered {
 
   // Observers
 
-  constexpr key_compare key_comp() const noexcept { return key_comp; }
+  constexpr key_compare key_comp() const noexcept { return key_comp_; }
 
   constexpr value_compare value_comp() const noexcept { return val_comp_; }
 
@@ -1173,14 +1182,22 @@ class [[nodiscard]] LimitedOrdered {
   }
 
  private:
+  // Takes over a comparator along with the order of its elements. Comparators need not be assignable (e.g. lambdas).
+  constexpr void copy_comp(const key_compare& other) noexcept {
+    std::destroy_at(&key_comp_);
+    std::construct_at(&key_comp_, other);
+    std::destroy_at(&val_comp_);
+    std::construct_at(&val_comp_, key_comp_);
+  }
+
   std::size_t size_{0};
 
   // Array would be better but that does not work with ASAN builds.
   // std::array<Data, Capacity == 0 ? 1 : Capacity> values_;
   Data values_[Capacity == 0 ? 1 : Capacity];  // NOLINT(*-avoid-c-arrays)
 
-  const key_compare key_comp_ = {};
-  const value_compare val_comp_ = value_compare(key_comp_);
+  key_compare key_comp_ = {};
+  value_compare val_comp_ = value_compare(key_comp_);
 };
 
 // NOLINTEND(readability-identifier-naming)
-- 
2.43.0


From 115645c503564bba54adbbe8387771d6393438db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 009/106] fix: container: keep element lifetimes in LimitedSet
 and LimitedMap balanced

Inserting and erasing constructed over live elements and left moved-from ones
behind that were never destroyed, as did swap. Relocate the elements instead.
Erasing through a const_iterator or a range did not compile.
---
 mbo/container/internal/limited_ordered.h | 111 +++++++++++------------
 1 file changed, 55 insertions(+), 56 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index b097ab3..9bc3493 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -896,11 +896,13 @@ class [[nodiscard]] LimitedOrdered {
     }
     const std::size_t other_size = other.size_;
     const std::size_t this_size = size_;
-    for (; pos < size_; ++pos) {
-      other.emplace(std::move(values_[pos].data));
+    for (; pos < this_size; ++pos) {
+      std::construct_at(&other.values_[pos].data, std::move(values_[pos].data));
+      std::destroy_at(&values_[pos].data);
     }
-    for (; pos < other.size(); ++pos) {
-      emplace(std::move(other.values_[pos].data));
+    for (; pos < other_size; ++pos) {
+      std::construct_at(&values_[pos].data, std::move(other.values_[pos].data));
+      std::destroy_at(&other.values_[pos].data);
     }
     size_ = other_size;
     other.size_ = this_size;
@@ -911,47 +913,33 @@ class [[nodiscard]] LimitedOrdered {
 
   template<typename... Args>
   constexpr std::pair<iterator, bool> emplace(Args&&... args) noexcept(!kRequireThrows) {
-    const RawValue new_val(std::forward<Args>(args)...);
+    RawValue new_val(std::forward<Args>(args)...);
     const iterator dst = lower_bound(GetKey(new_val));
     if (dst != end() && !key_comp_(GetKey(*dst), GetKey(new_val)) && !key_comp_(GetKey(new_val), GetKey(*dst))) {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `emplace` at capacity.");
-    for (iterator next = end(); next > dst; --next) {
-      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
-    }
-    std::construct_at(const_cast<RawValue*>(&*dst), std::move(new_val));
-    ++size_;
+    insert_at(dst, std::move(new_val));
     return std::make_pair(dst, true);
   }
 
   template<typename It>
   requires IsIterator<It>::value
   constexpr iterator erase(It pos) noexcept(!kRequireThrows) {
-    MBO_CONFIG_REQUIRE(begin() <= pos && pos < end(), "Invalid `pos`.");
-    auto dst = to_iterator(pos);
-    --size_;
-    std::destroy_at(&*dst);
-    for (; dst < end(); ++dst) {
-      std::construct_at(const_cast<RawValue*>(&*dst), std::move(*std::next(dst)));
-    }
-    return pos > end() ? end() : to_iterator(pos);
+    const iterator dst = to_iterator(pos);
+    MBO_CONFIG_REQUIRE(begin() <= dst && dst < end(), "Invalid `pos`.");
+    erase_at(dst, std::next(dst));
+    return dst;
   }
 
-  constexpr iterator erase(const_iterator first, const_iterator last) noexcept(!kRequireThrows) {
-    MBO_CONFIG_REQUIRE(begin() <= first && first <= last && last <= end(), "Invalid `first` or `last`.");
-    std::size_t deleted = 0;
-    for (const_iterator it = first; it < last; ++it) {
-      std::destroy_at(it);
-      ++deleted;
-    }
-    auto dst = to_iterator(first);
-    auto src = to_iterator(last);
-    for (; src < end(); ++src, ++dst) {
-      *dst = std::move(*src);
-    }
-    size_ -= deleted;
-    return to_iterator(first);
+  template<typename It>
+  requires IsIterator<It>::value
+  constexpr iterator erase(It first, It last) noexcept(!kRequireThrows) {
+    const iterator dst = to_iterator(first);
+    const iterator src = to_iterator(last);
+    MBO_CONFIG_REQUIRE(begin() <= dst && dst <= src && src <= end(), "Invalid `first` or `last`.");
+    erase_at(dst, src);
+    return dst;
   }
 
   constexpr size_type erase(const Key& key) {
@@ -1044,13 +1032,10 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `try_emplace` at capacity.");
-    for (iterator next = end(); next > dst; --next) {
-      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
-    }
-    std::construct_at(
-        const_cast<RawValue*>(&*dst), std::piecewise_construct, std::forward_as_tuple(key),
-        std::forward_as_tuple(std::forward<Args>(args)...));
-    ++size_;
+    insert_at(
+        dst, RawValue(
+                 std::piecewise_construct, std::forward_as_tuple(key),
+                 std::forward_as_tuple(std::forward<Args>(args)...)));
     return std::make_pair(dst, true);
   }
 
@@ -1063,13 +1048,9 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `try_emplace` at capacity.");
-    for (iterator next = end(); next > dst; --next) {
-      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
-    }
     // Should possibly use: std::piecewise_construct, std::move(key), std::forward_as_tuple(std::forward<Args>(args)...)
     // But that creates issues with conversion. However, we know the two types, so we do not need piecewise.
-    std::construct_at(const_cast<RawValue*>(&*dst), std::move(key), Mapped(std::forward<Args>(args)...));
-    ++size_;
+    insert_at(dst, RawValue(std::move(key), Mapped(std::forward<Args>(args)...)));
     return std::make_pair(dst, true);
   }
 
@@ -1082,11 +1063,7 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `insert_or_assign` at capacity.");
-    for (iterator next = end(); next > dst; --next) {
-      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
-    }
-    std::construct_at(const_cast<RawValue*>(&*dst), key, std::forward<V>(value));
-    ++size_;
+    insert_at(dst, RawValue(key, std::forward<V>(value)));
     return std::make_pair(dst, true);
   }
 
@@ -1099,11 +1076,7 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `emplace` at capacity.");
-    for (iterator next = end(); next > dst; --next) {
-      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
-    }
-    std::construct_at(const_cast<RawValue*>(&*dst), std::move(key), std::forward<V>(value));
-    ++size_;
+    insert_at(dst, RawValue(std::move(key), std::forward<V>(value)));
     return std::make_pair(dst, true);
   }
 
@@ -1160,9 +1133,9 @@ class [[nodiscard]] LimitedOrdered {
   constexpr value_compare value_comp() const noexcept { return val_comp_; }
 
  protected:
-  static constexpr iterator to_iterator(iterator pos) noexcept { return pos; }
+  constexpr iterator to_iterator(iterator pos) noexcept { return pos; }
 
-  static constexpr iterator to_iterator(const const_iterator& pos) noexcept { return iterator(pos.pos); }
+  constexpr iterator to_iterator(const_iterator pos) noexcept { return begin() + (pos - cbegin()); }
 
   // NOLINTNEXTLINE(bugprone-return-const-ref-from-parameter)
   static constexpr const Key& GetKey(const Key& key) noexcept { return key; }
@@ -1182,6 +1155,32 @@ class [[nodiscard]] LimitedOrdered {
   }
 
  private:
+  // Relocates all elements in [dst, end()) by one slot and then moves `new_val` into the slot at `dst`.
+  constexpr void insert_at(iterator dst, RawValue&& new_val) {
+    for (iterator next = end(); next > dst; --next) {
+      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
+      std::destroy_at(&*std::prev(next));
+    }
+    std::construct_at(const_cast<RawValue*>(&*dst), std::move(new_val));
+    ++size_;
+  }
+
+  // Destroys the elements in [dst, src) and relocates all elements that follow them to `dst`.
+  constexpr void erase_at(iterator dst, iterator src) {
+    if (dst == src) {
+      return;
+    }
+    const iterator last = end();
+    size_ -= static_cast<std::size_t>(src - dst);
+    for (iterator it = dst; it < src; ++it) {
+      std::destroy_at(&*it);
+    }
+    for (; src < last; ++src, ++dst) {
+      std::construct_at(const_cast<RawValue*>(&*dst), std::move(*src));
+      std::destroy_at(&*src);
+    }
+  }
+
   // Takes over a comparator along with the order of its elements. Comparators need not be assignable (e.g. lambdas).
   constexpr void copy_comp(const key_compare& other) noexcept {
     std::destroy_at(&key_comp_);
-- 
2.43.0


From 6b8a3eff60180b86531c8ba02e0317d56eeb6622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 010/106] fix: container: keep the value in
 LimitedMap::try_emplace for a present key

With it operator[] reset the value of a present key just by looking it up.
---
 mbo/container/internal/limited_ordered.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 9bc3493..adf6acd 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -1028,7 +1028,6 @@ class [[nodiscard]] LimitedOrdered {
   constexpr std::pair<iterator, bool> try_emplace(const Key& key, Args&&... args) {
     const iterator dst = lower_bound(key);
     if (dst != end() && !key_comp_(dst->first, key) && !key_comp_(key, dst->first)) {
-      dst->second = Mapped(args...);
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `try_emplace` at capacity.");
@@ -1044,7 +1043,6 @@ class [[nodiscard]] LimitedOrdered {
   constexpr std::pair<iterator, bool> try_emplace(Key&& key, Args&&... args) {
     const iterator dst = lower_bound(key);
     if (dst != end() && !key_comp_(dst->first, key) && !key_comp_(key, dst->first)) {
-      dst->second = Mapped(args...);
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `try_emplace` at capacity.");
-- 
2.43.0


From 92ef4d4f6d1b2b942be33e540a6459e1b65d36df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 011/106] fix: container: check the capacity when constructing
 from sorted input

LimitedSet and LimitedMap with kRequireSortedInput wrote past their storage.
---
 mbo/container/internal/limited_ordered.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index adf6acd..10d613b 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -465,6 +465,7 @@ class [[nodiscard]] LimitedOrdered {
     }
     while (first < last) {
       if constexpr (Options::Has(LimitedOptionsFlag::kRequireSortedInput)) {
+        MBO_CONFIG_REQUIRE(size_ < Capacity, "Called constructor at capacity.");
         std::construct_at(const_cast<RawValue*>(&values_[size_++].data), *first);
       } else {
         emplace(*first);
-- 
2.43.0


From 950aafa9d13dba61eb47508866d00e663d4a165c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 012/106] fix: container: erase only one element when erasing
 an element by itself

set.erase(*set.begin()) went on to erase whatever moved into the place of key.
---
 mbo/container/internal/limited_ordered.h | 25 ++++++++----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 10d613b..657636e 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -944,15 +944,10 @@ class [[nodiscard]] LimitedOrdered {
   }
 
   constexpr size_type erase(const Key& key) {
-    size_type count = 0;
-    while (true) {
-      auto pos = find(key);
-      if (pos == end()) {
-        break;
-      }
-      erase(pos);
-      ++count;
-    }
+    // The `key` may be an element, so it cannot be used once anything was erased.
+    const auto [first, last] = equal_range(key);
+    const size_type count = last - first;
+    erase(first, last);
     return count;
   }
 
@@ -974,14 +969,10 @@ class [[nodiscard]] LimitedOrdered {
       // Nothing to convert: `find` compares the foreign key directly, so no `Key` is
       // ever built. `key` is therefore never forwarded - there is no target to move
       // into - which is what the NOLINT above is about.
-      while (true) {
-        auto pos = find(key);
-        if (pos == end()) {
-          break;
-        }
-        erase(pos);
-        ++count;
-      }
+      // The `key` may be (part of) an element, so it cannot be used once anything was erased.
+      const auto [first, last] = equal_range(key);
+      count = last - first;
+      erase(first, last);
     } else {
       // A `Key` has to be materialised, because the comparator can only compare keys.
       //
-- 
2.43.0


From eb46bf7cc4036bb848b9b6ec80970cad940a8815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:06 +0000
Subject: [PATCH 013/106] fix: container: let LimitedMap be constructed from
 sorted input

With kRequireSortedInput the key comparator was applied to whole pairs, which
does not compile for any map.
---
 mbo/container/internal/limited_ordered.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 657636e..282d7aa 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -461,7 +461,12 @@ class [[nodiscard]] LimitedOrdered {
   constexpr LimitedOrdered(It first, It last, const Compare& key_comp = Compare()) noexcept(!kRequireThrows)
       : key_comp_(key_comp) {
     if constexpr (Options::Has(LimitedOptionsFlag::kRequireSortedInput)) {
-      MBO_CONFIG_REQUIRE(std::is_sorted(first, last, key_comp_), "Flag `kRequireSortedInput` violated.");
+      if constexpr (kKeyOnly) {
+        MBO_CONFIG_REQUIRE(std::is_sorted(first, last, key_comp_), "Flag `kRequireSortedInput` violated.");
+      } else {
+        const auto comp = [this](const auto& lhs, const auto& rhs) { return key_comp_(lhs.first, rhs.first); };
+        MBO_CONFIG_REQUIRE(std::is_sorted(first, last, comp), "Flag `kRequireSortedInput` violated.");
+      }
     }
     while (first < last) {
       if constexpr (Options::Has(LimitedOptionsFlag::kRequireSortedInput)) {
-- 
2.43.0


From aaf5e917a07ff4238a9d24af94ec05c4e7574836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:53 +0000
Subject: [PATCH 014/106] fix: container: copy from the range given to
 LimitedVector::assign

It moved all elements out of a range of non const iterators, and did not
compile for const iterators.
---
 mbo/container/limited_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index 5cbb7c4..d460876 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -360,7 +360,7 @@ class LimitedVector final {
   constexpr void assign(It begin, It end) noexcept {
     clear();
     while (begin < end) {
-      emplace_back(std::forward<mbo::types::ForwardIteratorValueType<It>>(*begin++));
+      emplace_back(*begin++);
     }
   }
 
-- 
2.43.0


From ff57f63fb615237a4eff9bc51ad7029dfab47d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:51 +0000
Subject: [PATCH 015/106] fix: container: make two scan iterators at the same
 element equal

---
 mbo/container/any_scan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/container/any_scan.h b/mbo/container/any_scan.h
index 019a4f0..3fdfdd8 100644
--- a/mbo/container/any_scan.h
+++ b/mbo/container/any_scan.h
@@ -470,7 +470,7 @@ class AnyScanImpl {
       if constexpr (kAccessByRef) {
         // Approximate equal address means equal iterator. That is not always correct as a container
         // might have the same element reference twice.
-        return &funcs_.curr() != &other.funcs_.curr();
+        return &funcs_.curr() == &other.funcs_.curr();
       } else {
         // Cannot take address of rvalue temp. Comparing actual values would be incorrect.
         return false;
-- 
2.43.0


From a777db4d6500a18f1f2242c6e78120fd3047ccf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:12 +0000
Subject: [PATCH 016/106] fix: container: leave the elements of a container
 that ConvertContainer only copies from

---
 mbo/container/convert_container.h | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/mbo/container/convert_container.h b/mbo/container/convert_container.h
index 8569a20..032dcc4 100644
--- a/mbo/container/convert_container.h
+++ b/mbo/container/convert_container.h
@@ -16,6 +16,9 @@
 #ifndef MBO_CONTAINER_CONVERT_CONTAINER_H_
 #define MBO_CONTAINER_CONVERT_CONTAINER_H_
 
+#include <type_traits>
+#include <utility>
+
 #include "mbo/types/traits.h"
 
 namespace mbo::container {
@@ -51,27 +54,27 @@ class ConvertContainer final {
     for (auto&& v : container_) {
       if constexpr (mbo::types::ContainerHasEmplace<ContainerOut, ValueType>) {
         if constexpr (std::same_as<Func, NoFunc>) {
-          result.emplace(std::move(v));
+          result.emplace(Pass(v));
         } else {
-          result.emplace(convert_(std::move(v)));
+          result.emplace(convert_(Pass(v)));
         }
       } else if constexpr (mbo::types::ContainerHasEmplaceBack<ContainerOut, ValueType>) {
         if constexpr (std::same_as<Func, NoFunc>) {
-          result.emplace_back(std::move(v));
+          result.emplace_back(Pass(v));
         } else {
-          result.emplace_back(convert_(std::move(v)));
+          result.emplace_back(convert_(Pass(v)));
         }
       } else if constexpr (mbo::types::ContainerHasInsert<ContainerOut, ValueType>) {
         if constexpr (std::same_as<Func, NoFunc>) {
-          result.insert(std::move(v));
+          result.insert(Pass(v));
         } else {
-          result.insert(convert_(std::move(v)));
+          result.insert(convert_(Pass(v)));
         }
       } else if constexpr (mbo::types::ContainerHasPushBack<ContainerOut, ValueType>) {
         if constexpr (std::same_as<Func, NoFunc>) {
-          result.push_back(std::move(v));
+          result.push_back(Pass(v));
         } else {
-          result.push_back(convert_(std::move(v)));
+          result.push_back(convert_(Pass(v)));
         }
       }
     }
@@ -79,6 +82,16 @@ class ConvertContainer final {
   }
 
  private:
+  // Only the elements of a container that was handed over may be moved.
+  template<typename V>
+  static constexpr decltype(auto) Pass(V& v) noexcept {
+    if constexpr (std::is_lvalue_reference_v<Container>) {
+      return (v);
+    } else {
+      return std::move(v);
+    }
+  }
+
   static inline constexpr NoFunc kNoFunc{};
   Container container_;
   Func convert_ = kNoFunc;
-- 
2.43.0


From 27e54e0ed7153a79c1656682c011ee7f366bc7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:12 +0000
Subject: [PATCH 017/106] fix: container: let the result of a scan iterator's
 postfix increment stay at its element

---
 mbo/container/any_scan.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mbo/container/any_scan.h b/mbo/container/any_scan.h
index 3fdfdd8..3b59efe 100644
--- a/mbo/container/any_scan.h
+++ b/mbo/container/any_scan.h
@@ -451,7 +451,17 @@ class AnyScanImpl {
     }
 
     iterator_impl operator++(int) noexcept {  // NOLINT(cert-dcl21-cpp)
-      iterator_impl result = *this;
+      // A plain copy shares its position with this iterator, so it would move on, too. Instead the result stays
+      // where it is, by holding on to the element (or its converted value) and to whatever keeps that alive.
+      iterator_impl result;
+      if (funcs_.more()) {
+        result.funcs_.more = [more = funcs_.more] { return true; };
+        if constexpr (kAccessByRef) {
+          result.funcs_.curr = [&curr = funcs_.curr()]() -> AccessType { return curr; };
+        } else {
+          result.funcs_.curr = [curr = funcs_.curr()]() -> AccessType { return curr; };
+        }
+      }
       funcs_.next();
       return result;
     }
-- 
2.43.0


From ef89f168b930d21f37a144640aeb309d3957618c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:53 +0000
Subject: [PATCH 018/106] fix: container: let iterators and const iterators of
 a scan be compared

---
 mbo/container/any_scan.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mbo/container/any_scan.h b/mbo/container/any_scan.h
index 3b59efe..d7e885e 100644
--- a/mbo/container/any_scan.h
+++ b/mbo/container/any_scan.h
@@ -468,7 +468,7 @@ class AnyScanImpl {
 
     template<typename OE, typename OV, typename OP, typename OR>
     bool operator==(const iterator_impl<OE, OV, OP, OR>& other) const noexcept {
-      if (this == &other) {
+      if (static_cast<const void*>(this) == static_cast<const void*>(&other)) {
         return true;
       }
       const bool l_end = !funcs_.more();
@@ -493,6 +493,9 @@ class AnyScanImpl {
     }
 
    private:
+    template<typename OE, typename OV, typename OP, typename OR>
+    friend class iterator_impl;  // For comparing with the other iterator type.
+
     IterFuncs funcs_;  // Cannot be const.
   };
 
-- 
2.43.0


From 16872c95916230cb7af3de4880bbf2c2a8a9784f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:06 +0000
Subject: [PATCH 019/106] fix: strings: accept an octal escape of one digit at
 the end of the input

---
 mbo/strings/parse.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mbo/strings/parse.cc b/mbo/strings/parse.cc
index c82bb70..81143cb 100644
--- a/mbo/strings/parse.cc
+++ b/mbo/strings/parse.cc
@@ -29,11 +29,11 @@
 namespace mbo::strings {
 namespace {
 absl::StatusOr<char> ParseOctal(char first_char, std::string_view& data) {
-  if (data.empty()) {
-    return absl::InvalidArgumentError("ParseString input has bad octal sequence.");
-  }
   const bool octal_23 = first_char == 'o';
   if (octal_23) {
+    if (data.empty()) {
+      return absl::InvalidArgumentError("ParseString input has bad octal sequence.");
+    }
     if (data.size() < 3 || data.front() != '{') {
       return absl::InvalidArgumentError("ParseString input has bad octal C++23 sequence.");
     }
-- 
2.43.0


From 74e87ab860d55792cc597a9dff411bd69df55f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:06 +0000
Subject: [PATCH 020/106] fix: strings: refuse braced octal escapes that do not
 start with an octal digit

---
 mbo/strings/parse.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mbo/strings/parse.cc b/mbo/strings/parse.cc
index 81143cb..1385213 100644
--- a/mbo/strings/parse.cc
+++ b/mbo/strings/parse.cc
@@ -39,6 +39,9 @@ absl::StatusOr<char> ParseOctal(char first_char, std::string_view& data) {
     }
     data.remove_prefix(1);
     first_char = PopChar(data);
+    if (first_char < '0' || first_char > '7') {
+      return absl::InvalidArgumentError("ParseString input has bad octal C++23 sequence.");
+    }
   }
   static constexpr int kOctalDigit = 8;
   int next_chr = first_char - '0';
-- 
2.43.0


From 6a4c2b2af22814a9a63911d41e45efd5f87d3477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:06 +0000
Subject: [PATCH 021/106] fix: strings: let ParseStringList stop where
 ParseString stops

---
 mbo/strings/parse.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mbo/strings/parse.cc b/mbo/strings/parse.cc
index 1385213..aaf85f4 100644
--- a/mbo/strings/parse.cc
+++ b/mbo/strings/parse.cc
@@ -245,7 +245,8 @@ absl::StatusOr<std::vector<std::string>> ParseStringList(const ParseOptions& opt
   if (str_options.split_at_any_of.empty()) {
     str_options.split_at_any_of = ",";
   }
-  if (absl::StrContains(options.stop_at_any_of, data.front())) {
+  if (absl::StrContains(options.stop_at_any_of, data.front())
+      || (!options.stop_at_str.empty() && data.starts_with(options.stop_at_str))) {
     return result;
   }
   if (data.size() == 1 && absl::StrContains(str_options.split_at_any_of, data.front())) {
@@ -260,10 +261,12 @@ absl::StatusOr<std::vector<std::string>> ParseStringList(const ParseOptions& opt
     if (data.empty()) {
       return result;
     }
-    if (absl::StrContains(options.stop_at_any_of, data.front())) {
-      return result;
+    if (absl::StrContains(options.stop_at_any_of, data.front())
+        || (!options.stop_at_str.empty() && data.starts_with(options.stop_at_str))
+        || !absl::StrContains(str_options.split_at_any_of, data.front())) {
+      return result;  // Only a character to split at continues the list, anything else stops it.
     }
-    if (data.size() == 1 && absl::StrContains(str_options.split_at_any_of, data.front())) {
+    if (data.size() == 1) {
       result.emplace_back("");
       data.remove_prefix(1);
       return result;
-- 
2.43.0


From 4c4970ef0fbdd5dd6f79fca207e9810ab4619547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:06 +0000
Subject: [PATCH 022/106] fix: strings: let AtLast find separators relative to
 the whole text

---
 mbo/strings/split.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/strings/split.h b/mbo/strings/split.h
index 5f94a51..7dd46f9 100644
--- a/mbo/strings/split.h
+++ b/mbo/strings/split.h
@@ -31,7 +31,7 @@ class AtLast {
     if (next_pos == std::string_view::npos) {
       return std::string_view{text.data() + text.size(), 0};
     }
-    return text.substr(next_pos, 1);
+    return text.substr(pos + next_pos, 1);
   }
 
  private:
-- 
2.43.0


From 9d7ed9e3c569d56ba31e3fa8068092f17bd6c8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:42 +0000
Subject: [PATCH 023/106] fix: mope: let a section join be a reference, and
 keep expansion from changing the template

---
 mbo/mope/mope.cc | 21 +++++++++------------
 mbo/mope/mope.h  |  7 +++++--
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/mbo/mope/mope.cc b/mbo/mope/mope.cc
index e9c3407..1324b90 100644
--- a/mbo/mope/mope.cc
+++ b/mbo/mope/mope.cc
@@ -252,7 +252,11 @@ absl::Status Template::ExpandRangeData(
   return result;
 }
 
-absl::Status Template::ExpandSection(const TagData<Section>& tag, Context& ctx, std::string& output) {
+absl::Status Template::ExpandSection(
+    const TagData<Section>& tag,
+    std::string_view join,
+    Context& ctx,
+    std::string& output) {
   const std::string original(std::move(output));
   output = "";
   bool first = true;
@@ -260,7 +264,7 @@ absl::Status Template::ExpandSection(const TagData<Section>& tag, Context& ctx,
     std::string result(original);
     MBO_RETURN_IF_ERROR(section.ExpandInternal(ctx, result));
     if (!first) {
-      output.append(tag.data.join);
+      output.append(join);
     }
     first = false;
     output.append(result);
@@ -345,16 +349,9 @@ absl::Status Template::ExpandSectionTag(const TagInfo& tag, Context& ctx, std::s
       output.clear();
       return absl::OkStatus();
     }
-    static constexpr mbo::strings::ParseOptions kOptions{
-        .remove_quotes = true,
-        .allow_unquoted = false,
-    };
-    std::string_view join;
-    if (tag.option.has_value()) {
-      join = *tag.option;
-    }
-    MBO_ASSIGN_OR_RETURN(section->data.join, ParseString(kOptions, join));
-    return ExpandSection(*section, ctx, output);
+    std::string join;
+    MBO_RETURN_IF_ERROR(MaybeLookup(tag, tag.option.value_or(""), ctx, join));
+    return ExpandSection(*section, join, ctx, output);
   }
   static constexpr LazyRE2 kReFor = {
       .pattern_ =
diff --git a/mbo/mope/mope.h b/mbo/mope/mope.h
index 0100016..f238ad0 100644
--- a/mbo/mope/mope.h
+++ b/mbo/mope/mope.h
@@ -84,7 +84,6 @@ class Template {
   };
 
   struct Section {
-    mutable std::string join;
     std::vector<Template> dictionary;
   };
 
@@ -157,7 +156,11 @@ class Template {
 
   absl::Status ExpandInternal(Context& ctx, std::string& output) const;
 
-  static absl::Status ExpandSection(const TagData<Section>& tag, Context& ctx, std::string& output);
+  static absl::Status ExpandSection(
+      const TagData<Section>& tag,
+      std::string_view join,
+      Context& ctx,
+      std::string& output);
 
   template<typename Sink>
   friend void AbslStringify(Sink& /*sink*/, TagType /*tag*/);
-- 
2.43.0


From 7b5d42e0a2c88d729540eeea6374ddbac521b3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:43 +0000
Subject: [PATCH 024/106] fix: mope: do not overflow when a for-loop ends at
 the limits of int

---
 mbo/mope/mope.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mbo/mope/mope.cc b/mbo/mope/mope.cc
index 1324b90..e720601 100644
--- a/mbo/mope/mope.cc
+++ b/mbo/mope/mope.cc
@@ -16,6 +16,7 @@
 #include "mbo/mope/mope.h"
 
 #include <cstddef>
+#include <cstdint>
 #include <optional>
 #include <string>
 #include <string_view>
@@ -211,8 +212,9 @@ absl::Status Template::ExpandRangeTag(const TagInfo& /*tag*/, Range& range, Cont
   }
   range.expanding = true;
   const absl::Cleanup cleanup = [&range] { range.expanding = false; };
-  for (range.curr = range.start; range.step > 0 ? range.curr <= range.end : range.curr >= range.end;
-       range.curr += range.step) {
+  // The position past the last value may not be representable as an `int`.
+  for (std::int64_t curr = range.start; range.step > 0 ? curr <= range.end : curr >= range.end; curr += range.step) {
+    range.curr = static_cast<int>(curr);
     if (!range.join.empty() && range.curr != range.start) {
       output.append(range.join);
     }
-- 
2.43.0


From 744d30beb6c82179a829c2f6c340c7e7417a42d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:55 +0000
Subject: [PATCH 025/106] fix: mope: refuse a for-loop whose name hides behind
 a template value

---
 mbo/mope/mope.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mbo/mope/mope.cc b/mbo/mope/mope.cc
index e720601..bfbaaea 100644
--- a/mbo/mope/mope.cc
+++ b/mbo/mope/mope.cc
@@ -244,6 +244,10 @@ absl::Status Template::ExpandRangeData(
   // * range.step > 0 && range.start > range.end
   // * range.step < 0 && range.start < range.end
   // But that would not work well with values that were looked up or computed.
+  if (data_.contains(tag.name)) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("Tag '", tag.name, "' may not be present prior to expanding a for-loop of the same name."));
+  }
   auto [r_tag_it, inserted] = ctx.data.emplace(tag.name, TagData<Range>{.tag = tag, .data = range});
   if (!inserted) {
     return absl::InvalidArgumentError(absl::StrCat("Tag '", tag.name, "' appears twice."));
-- 
2.43.0


From 09eff3084c66264bb6b2f8ec8b659c015841fdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 026/106] fix: mope: allow a ';' in the quoted join of a
 for-loop

---
 mbo/mope/mope.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/mope/mope.cc b/mbo/mope/mope.cc
index bfbaaea..f6a4d9e 100644
--- a/mbo/mope/mope.cc
+++ b/mbo/mope/mope.cc
@@ -361,7 +361,7 @@ absl::Status Template::ExpandSectionTag(const TagInfo& tag, Context& ctx, std::s
   }
   static constexpr LazyRE2 kReFor = {
       .pattern_ =
-          R"(\s*(-?\d+|[_a-zA-Z]\w*)\s*;\s*(-?\d+|[_a-zA-Z]\w*)\s*(?:;\s*(|-?\d+|[_a-zA-Z]\w*)\s*(?:;([^;]*))?)?)"};
+          R"(\s*(-?\d+|[_a-zA-Z]\w*)\s*;\s*(-?\d+|[_a-zA-Z]\w*)\s*(?:;\s*(|-?\d+|[_a-zA-Z]\w*)\s*(?:;((?s:.*)))?)?)"};
   RangeData range;
   if (RE2::FullMatch(*tag.config, *kReFor, &range.start, &range.end, &range.step, &range.join)) {
     return ExpandRangeData(tag, range, ctx, output);
-- 
2.43.0


From 6d8a195f8451901b52b3679ad57e66be37d326f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 027/106] fix: mope: keep the result of AddSection valid when
 more sections are added

---
 mbo/mope/mope.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mbo/mope/mope.h b/mbo/mope/mope.h
index f238ad0..91e26a4 100644
--- a/mbo/mope/mope.h
+++ b/mbo/mope/mope.h
@@ -16,6 +16,7 @@
 #ifndef MBO_MOPE_MOPE_H_
 #define MBO_MOPE_MOPE_H_
 
+#include <list>
 #include <optional>
 #include <string>
 #include <string_view>
@@ -84,7 +85,7 @@ class Template {
   };
 
   struct Section {
-    std::vector<Template> dictionary;
+    std::list<Template> dictionary;  // `AddSection` hands out pointers, so they must remain valid.
   };
 
   struct Range : mbo::types::Extend<Range> {
-- 
2.43.0


From 5fa82ac02ccb3d4c10b00bd20f5b01caed8dcd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 028/106] fix: mope: consume the whole CRLF line ending behind
 a tag on its own line

---
 mbo/mope/mope.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbo/mope/mope.cc b/mbo/mope/mope.cc
index f6a4d9e..7b84424 100644
--- a/mbo/mope/mope.cc
+++ b/mbo/mope/mope.cc
@@ -48,14 +48,14 @@ std::pair<std::size_t, std::size_t> ExpandWhiteSpace(
   std::size_t end = tag_pos + tag_len;
   // Is the tag followed by a new-line?
   if (end < output.size() && (output.at(end) == '\n' || output.at(end) == '\r')) {
-    ++end;
+    end += output.substr(end).starts_with("\r\n") ? 2 : 1;
     std::size_t pos = tag_pos;
     // reverse past all space
     while (pos > 0 && (output.at(pos - 1) == ' ' || output.at(pos - 1) == '\t')) {
       --pos;
     }
     if (pos == 0 || output.at(pos - 1) == '\n' || output.at(pos - 1) == '\r') {
-      return {pos, tag_pos - pos + tag_len + 1};
+      return {pos, end - pos};
     }
   }
   return {tag_pos, tag_len};
-- 
2.43.0


From 06b3d9289cfd0f8dd914ab480a7d3e9bd0356819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 029/106] fix: mope: report a template that cannot be read

---
 mbo/mope/mope_main.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mbo/mope/mope_main.cc b/mbo/mope/mope_main.cc
index 3bdca6b..f510ddb 100644
--- a/mbo/mope/mope_main.cc
+++ b/mbo/mope/mope_main.cc
@@ -97,7 +97,7 @@ absl::Status ApplySetFlag(
 }
 
 absl::Status Process(const Options& opts) {
-  auto input = mbo::file::Artefact::Read(opts.template_name);
+  MBO_ASSIGN_OR_RETURN(auto input, mbo::file::Artefact::Read(opts.template_name));
   mbo::mope::Template mope_template;
   // Add `--set` flag values.
   absl::flat_hash_map<std::string, std::string> context_data;
@@ -110,12 +110,12 @@ absl::Status Process(const Options& opts) {
     MBO_RETURN_IF_ERROR(mope::ReadIniToTemlate(ini_filename, mope_template));
   }
   // Expand the template.
-  MBO_RETURN_IF_ERROR(mope_template.Expand(input->data, mbo::container::MakeConvertingScan(context_data)));
+  MBO_RETURN_IF_ERROR(mope_template.Expand(input.data, mbo::container::MakeConvertingScan(context_data)));
   if (opts.generate_name.empty() || opts.generate_name == "-") {
-    std::cout << input->data;
+    std::cout << input.data;
     return absl::OkStatus();
   }
-  return mbo::file::SetContents(opts.generate_name, input->data);
+  return mbo::file::SetContents(opts.generate_name, input.data);
 }
 
 }  // namespace
-- 
2.43.0


From 97a658a4478b1fc8aaf10ac133cc1782406e4498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 030/106] fix: mope: keep everything behind the first '=' of a
 --set value

---
 mbo/mope/mope_main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/mope/mope_main.cc b/mbo/mope/mope_main.cc
index f510ddb..94f95b9 100644
--- a/mbo/mope/mope_main.cc
+++ b/mbo/mope/mope_main.cc
@@ -73,7 +73,7 @@ absl::Status ApplySetFlag(
     absl::flat_hash_map<std::string, std::string>& context_data) {
   static constexpr std::string_view kEmptyPartError =
       "No part of the key in `--set=<key>=<value>` may be empty if split by ':'.";
-  const auto [names, value] = std::pair<std::string_view, std::string_view>(absl::StrSplit(set_kv, '='));
+  const auto [names, value] = std::pair<std::string_view, std::string_view>(absl::StrSplit(set_kv, absl::MaxSplits('=', 1)));
   std::vector<std::string_view> section_names = absl::StrSplit(names, ':');
   const std::string_view key = section_names.back();
   if (key.empty()) {
-- 
2.43.0


From beccc1452773a57ce7aed4e60e02238c348938f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 031/106] fix: ini: skip lines of nothing but whitespace

---
 mbo/file/ini/ini_file.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mbo/file/ini/ini_file.cc b/mbo/file/ini/ini_file.cc
index 4400212..6ac0b48 100644
--- a/mbo/file/ini/ini_file.cc
+++ b/mbo/file/ini/ini_file.cc
@@ -44,6 +44,9 @@ IniFile IniFile::Parse(std::string_view content) {
   std::string_view group;
   for (auto line : lines) {
     line = absl::StripAsciiWhitespace(line);
+    if (line.empty()) {
+      continue;
+    }
     if (line.starts_with('[') && line.ends_with(']')) {
       line.remove_prefix(1);
       line.remove_suffix(1);
-- 
2.43.0


From 2d439f36f45db08d71b45c9cabbbf25ee4193f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 032/106] fix: ini: strip values that are set as documented

---
 mbo/file/ini/ini_file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/file/ini/ini_file.h b/mbo/file/ini/ini_file.h
index 6dbe778..1b10d79 100644
--- a/mbo/file/ini/ini_file.h
+++ b/mbo/file/ini/ini_file.h
@@ -83,7 +83,7 @@ class IniFile {
     const auto [group, key] = Clean(group_key);
     // map insert: operator[] creates the entry, so there is no range to exceed.
     // NOLINTNEXTLINE(*-avoid-unchecked-container-access)
-    data_[group][key] = std::move(new_value);
+    data_[group][key] = absl::StripAsciiWhitespace(new_value);
   }
 
   template<
-- 
2.43.0


From 219df3288bbad75f5731d1d3e4ad38778808eafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:58 +0000
Subject: [PATCH 033/106] fix: mope: do not require an INI file, it is optional

---
 mbo/mope/mope_main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/mope/mope_main.cc b/mbo/mope/mope_main.cc
index 94f95b9..87e8ccd 100644
--- a/mbo/mope/mope_main.cc
+++ b/mbo/mope/mope_main.cc
@@ -39,7 +39,7 @@
 
 ABSL_FLAG(std::string, template, "", "The templte input file (.tpl, .mope).");
 ABSL_FLAG(std::string, generate, "-", "The generated out file ('-' for stdout)");
-ABSL_FLAG(std::string, ini, "-", "An INI file that can be used to initialize section data.");
+ABSL_FLAG(std::string, ini, "", "An INI file that can be used to initialize section data.");
 
 ABSL_FLAG(
     std::vector<std::string>,
-- 
2.43.0


From 001785412b97c262f8a20db7bcdbb332312c53a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 034/106] fix: file: report an attempt to read a directory as
 an error

---
 mbo/file/file.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mbo/file/file.cc b/mbo/file/file.cc
index cbb963a..53848c2 100644
--- a/mbo/file/file.cc
+++ b/mbo/file/file.cc
@@ -98,6 +98,10 @@ absl::Status Readable(const std::filesystem::path& file_name) {
 }
 
 absl::StatusOr<std::string> GetContents(const std::filesystem::path& file_name) {
+  std::error_code error;
+  if (std::filesystem::is_directory(file_name, error)) {
+    return absl::FailedPreconditionError(absl::StrFormat("Cannot open directory for reading: '%s'", file_name));
+  }
   std::ifstream ifs;
   ifs.exceptions(static_cast<std::ios_base::iostate>(0));
   ifs.open(file_name, std::ios_base::in);
-- 
2.43.0


From 193eea68fbdcc344bf92666309d3a664a8167cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 035/106] fix: file: report errors of Readable instead of
 throwing

---
 mbo/file/file.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mbo/file/file.cc b/mbo/file/file.cc
index 53848c2..ccfa079 100644
--- a/mbo/file/file.cc
+++ b/mbo/file/file.cc
@@ -79,10 +79,15 @@ absl::Status SetContents(const std::filesystem::path& file_name, std::string_vie
 }
 
 absl::Status Readable(const std::filesystem::path& file_name) {
-  if (!std::filesystem::exists(file_name)) {
+  std::error_code error;
+  const std::filesystem::file_status status = std::filesystem::status(file_name, error);
+  if (status.type() == std::filesystem::file_type::not_found) {
     return absl::NotFoundError(absl::StrFormat("File does not exist: '%s'", file_name));
   }
-  if (std::filesystem::is_directory(file_name)) {
+  if (error) {
+    return absl::UnknownError(absl::StrFormat("Unable to access file: '%s': %s", file_name, error.message()));
+  }
+  if (std::filesystem::is_directory(status)) {
     return absl::FailedPreconditionError(absl::StrFormat("Cannot open directory for reading: '%s'", file_name));
   }
   // Perform same operation as `GetContents` and use the ifstream constructor
-- 
2.43.0


From eaecea0918430da610c441ae0267b0a81ee77a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 036/106] fix: file: leave no trailing separator when a
 normalized path ended in a dot component

---
 mbo/file/file.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mbo/file/file.cc b/mbo/file/file.cc
index ccfa079..dde3040 100644
--- a/mbo/file/file.cc
+++ b/mbo/file/file.cc
@@ -59,7 +59,12 @@ std::filesystem::path NormalizePath(const std::filesystem::path& path) {
          && (path_str.back() == static_cast<PathChar>('/') || path_str.back() == static_cast<PathChar>('\\'))) {
     path_str.remove_suffix(1);
   }
-  return std::filesystem::path(path_str).lexically_normal();
+  std::filesystem::path normalized = std::filesystem::path(path_str).lexically_normal();
+  // Removing a trailing '.' or '..' leaves a separator at the end.
+  if (normalized.has_relative_path() && !normalized.has_filename()) {
+    normalized = normalized.parent_path();
+  }
+  return normalized;
 }
 
 absl::Status SetContents(const std::filesystem::path& file_name, std::string_view content) {
-- 
2.43.0


From 69d34d377b45b4f099c10e7aebaf9028ff723746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 037/106] fix: file: respect absolute paths behind an empty one

---
 mbo/file/file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/file/file.h b/mbo/file/file.h
index cb951bb..7fa2e8b 100644
--- a/mbo/file/file.h
+++ b/mbo/file/file.h
@@ -65,7 +65,7 @@ inline std::filesystem::path JoinPathsRespectAbsolute(const std::filesystem::pat
     if constexpr (sizeof...(paths) == 0) {
       return std::filesystem::path(first_path);
     } else if (first_path.empty()) {
-      return JoinPaths(paths...);
+      return JoinPathsRespectAbsolute(paths...);
     } else {
       // In theory this is what `fs::path /=` should do. But then it does way more.
       auto joined = JoinPathsRespectAbsolute(paths...);
-- 
2.43.0


From 77bcfd17f628094b791010489b8a25342d1bc4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:27 +0000
Subject: [PATCH 038/106] fix: glob: let '^' and '$' stand for themselves

---
 mbo/file/glob.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index a513b71..16a692c 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -392,6 +392,8 @@ MBO_ALWAYS_INLINE absl::StatusOr<std::string> Glob2Re2ExpressionImpl(
       case '|':
       case '+':
       case '.':
+      case '^':
+      case '$':
         // Characters that need to be escaped since they are literal in rglob but special in re2.
         re2_pattern += '\\';
         re2_pattern += chr;
-- 
2.43.0


From a12ab7c81001691c8f993fd476d0ff1712a20b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:27 +0000
Subject: [PATCH 039/106] fix: glob: let an escaped letter or digit stand for
 itself

---
 mbo/file/glob.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index 16a692c..f81b37c 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -98,6 +98,14 @@ MBO_ALWAYS_INLINE bool GlobFindRangePrefix(std::string_view& pattern, std::strin
   return false;
 }
 
+// Appends `chr` so that RE2 takes it literally. RE2 gives escaped letters and digits a meaning of their own.
+void AppendEscaped(char chr, std::string& re2_pattern) {
+  if (absl::ascii_ispunct(static_cast<unsigned char>(chr)) && chr != '_') {
+    re2_pattern += '\\';
+  }
+  re2_pattern += chr;
+}
+
 bool CopytNextChar(std::string_view& pattern, std::string& re2_pattern) {
   if (pattern.empty()) {
     return false;
@@ -110,7 +118,7 @@ bool CopytNextChar(std::string_view& pattern, std::string& re2_pattern) {
   if (pattern.size() < 2) {
     return false;
   }
-  re2_pattern.append(pattern.substr(0, 2));
+  AppendEscaped(pattern[1], re2_pattern);
   pattern.remove_prefix(2);
   return true;
 }
@@ -374,7 +382,7 @@ MBO_ALWAYS_INLINE absl::StatusOr<std::string> Glob2Re2ExpressionImpl(
         continue;
       case '\\':
         // if (pattern.size() < 2) { already handled
-        absl::StrAppend(&re2_pattern, pattern.substr(0, 2));
+        AppendEscaped(pattern[1], re2_pattern);
         pattern.remove_prefix(2);
         continue;
       case '*': {
-- 
2.43.0


From b2493cd9131e67c25214cb97491c16b9a7856621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:27 +0000
Subject: [PATCH 040/106] fix: glob: let '[' stand for itself if ranges are not
 allowed

---
 mbo/file/glob.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index f81b37c..00052ba 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -409,7 +409,7 @@ MBO_ALWAYS_INLINE absl::StatusOr<std::string> Glob2Re2ExpressionImpl(
         continue;
       case '[':
         if (!options.allow_ranges) {
-          re2_pattern += pattern.front();
+          AppendEscaped(chr, re2_pattern);
           pattern.remove_prefix(1);
           continue;
         }
-- 
2.43.0


From 94fced91fc03ce108c86998e4034ca044bb22a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:27 +0000
Subject: [PATCH 041/106] fix: glob: let '**' match every character

---
 mbo/file/glob.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index 00052ba..dba099c 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -460,7 +460,9 @@ absl::StatusOr<std::unique_ptr<const RE2>> Glob2Re2(
     std::string_view pattern,
     const Glob2Re2Options& re2_convert_options) {
   MBO_MOVE_TO_OR_RETURN(Glob2Re2Expression(pattern, re2_convert_options), const std::string re2_pattern);
-  auto re2 = std::make_unique<RE2>(re2_pattern, re2_convert_options.re2_options);
+  RE2::Options re2_options = re2_convert_options.re2_options;
+  re2_options.set_dot_nl(true);  // '**' matches any character.
+  auto re2 = std::make_unique<RE2>(re2_pattern, re2_options);
   if (re2->error_code() != RE2::NoError) {
     return absl::InvalidArgumentError(absl::StrFormat("Could not compile re2: '%s': %s.", pattern, re2->error()));
   }
-- 
2.43.0


From 6385b7f4b3a4591d04382591d5b5ea22af84d283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:27 +0000
Subject: [PATCH 042/106] fix: glob: unescape the root that is split from a
 pattern

---
 mbo/file/glob.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index dba099c..67d0416 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -22,6 +22,7 @@
 #include <string>
 #include <string_view>
 #include <system_error>
+#include <utility>
 
 #include "absl/algorithm/container.h"
 #include "absl/status/status.h"
@@ -471,8 +472,14 @@ absl::StatusOr<std::unique_ptr<const RE2>> Glob2Re2(
 
 absl::StatusOr<RootAndPattern> GlobSplit(std::string_view pattern, const Glob2Re2Options& options) {
   MBO_MOVE_TO_OR_RETURN(GlobNormalizeData(pattern, options), const GlobData data);
-  std::string_view root(data.pattern);
-  root.remove_suffix(root.size() - data.root_len);
+  // The root is a path, so unlike the pattern it has no escapes.
+  std::string root;
+  for (std::size_t pos = 0; pos < data.root_len; ++pos) {
+    if (data.pattern[pos] == '\\') {
+      ++pos;
+    }
+    root += data.pattern[pos];
+  }
   std::string_view patt(data.pattern);
   patt.remove_prefix(data.root_len);
   if (patt.starts_with('/')) {
@@ -482,7 +489,7 @@ absl::StatusOr<RootAndPattern> GlobSplit(std::string_view pattern, const Glob2Re
     }
   }
   return RootAndPattern{
-      .root = std::string{root},
+      .root = std::move(root),
       .pattern = std::string{patt},
   };
 }
-- 
2.43.0


From a794ecfdb244e372201d7a28e7b09fff3c941ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:27 +0000
Subject: [PATCH 043/106] fix: glob: match paths relative to a root that is not
 normalized

---
 mbo/file/glob.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index 67d0416..7102901 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -557,12 +557,12 @@ absl::Status GlobLoop(const fs::path& root, const GlobOptions& options, const Gl
 }  // namespace
 
 absl::Status GlobRe2(fs::path root, const RE2& regex, const GlobOptions& options, const GlobEntryFunc& func) {
-  if (options.use_current_dir) {
-    if (root.empty() || root == ".") {
-      root = std::filesystem::current_path();
-    } else if (root.is_relative()) {
-      root = std::filesystem::current_path() / root;
-    }
+  // Normalize the root the same way as the iteration does, so that relative paths can be computed.
+  root = root.lexically_normal();
+  if (root.empty() || root == ".") {
+    root = std::filesystem::current_path();
+  } else if (options.use_current_dir && root.is_relative()) {
+    root = (std::filesystem::current_path() / root).lexically_normal();
   }
   const auto wrap_func = [&](const GlobEntry& entry) -> absl::StatusOr<GlobEntryAction> {
     if (!regex.pattern().empty()) {
-- 
2.43.0


From 65e24910c2244f1a12a08794069b921a9436e8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:27 +0000
Subject: [PATCH 044/106] fix: glob: return errors of the iteration instead of
 throwing

---
 mbo/file/glob.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index 7102901..4506372 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -526,7 +526,8 @@ absl::Status GlobLoopImpl(const fs::path& root, const GlobOptions& options, cons
   if (error_code) {
     return absl::CancelledError(error_code.message());
   }
-  for (const fs::directory_entry& entry : it) {
+  for (; it != FileIterator(); it.increment(error_code)) {
+    const fs::directory_entry& entry = *it;
     const GlobEntry glob_entry{
         .rel_path =
             options.use_rel_path ? std::optional<fs::path>{entry.path().lexically_relative(root)} : std::nullopt,
@@ -543,6 +544,9 @@ absl::Status GlobLoopImpl(const fs::path& root, const GlobOptions& options, cons
       }
     }
   }
+  if (error_code) {
+    return absl::CancelledError(error_code.message());
+  }
   return absl::OkStatus();
 }
 
-- 
2.43.0


From 2c5a5c4b8bc032c3dffe64602ea35148af92576c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:27 +0000
Subject: [PATCH 045/106] fix: glob: report the size 0 for a link that cannot
 be resolved

---
 mbo/file/glob.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbo/file/glob.h b/mbo/file/glob.h
index 4eccb7e..19cbc91 100644
--- a/mbo/file/glob.h
+++ b/mbo/file/glob.h
@@ -138,10 +138,10 @@ struct GlobEntry : mbo::types::Extend<GlobEntry> {
   // Returns the file's size or 0 if the entry is not a regular file.
   // If the file size cannot be retrieved, then the function also returns 0.
   std::size_t FileSize() const noexcept {
-    if (!entry.is_regular_file()) {
+    std::error_code error;
+    if (!entry.is_regular_file(error)) {
       return 0;
     }
-    std::error_code error;
     const std::size_t result = entry.file_size(error);
     return error ? 0 : result;
   }
-- 
2.43.0


From cd09e7da7e4401721f17dfe11fe502008042c96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 046/106] fix: glob: do not fail for a link that cannot be
 resolved

---
 mbo/file/glob_main.cc | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/mbo/file/glob_main.cc b/mbo/file/glob_main.cc
index 7675706..39f65bc 100644
--- a/mbo/file/glob_main.cc
+++ b/mbo/file/glob_main.cc
@@ -19,6 +19,7 @@
 #include <iostream>
 #include <string>
 #include <string_view>
+#include <system_error>
 #include <utility>
 #include <vector>
 
@@ -90,22 +91,23 @@ class Entries {
   Entries& operator=(Entries&&) = delete;
 
   mbo::file::GlobEntryAction Add(const mbo::file::GlobEntry& glob_entry) {
+    std::error_code error;  // The type of a link that cannot be resolved is not known.
     // Filter
-    if (glob_entry.entry.is_directory()) {
+    if (glob_entry.entry.is_directory(error)) {
       if (!dotdir_ && glob_entry.entry.path().filename().string().starts_with('.')) {
         return mbo::file::GlobEntryAction::kDoNotRecurse;
       }
-    } else if (glob_entry.entry.is_regular_file()) {
+    } else if (glob_entry.entry.is_regular_file(error)) {
       if (!dotfile_ && glob_entry.entry.path().filename().string().starts_with('.')) {
         return mbo::file::GlobEntryAction::kContinue;
       }
     }
     // Actual Add
-    if (glob_entry.entry.is_directory()) {
+    if (glob_entry.entry.is_directory(error)) {
       ++dirs_;
-    } else if (glob_entry.entry.is_symlink()) {
+    } else if (glob_entry.entry.is_symlink(error)) {
       ++links_;
-    } else if (glob_entry.entry.is_regular_file()) {
+    } else if (glob_entry.entry.is_regular_file(error)) {
       ++files_;
       const std::size_t size = glob_entry.FileSize();
       size_ += size;
@@ -152,19 +154,20 @@ class Entries {
   }
 
   static char GetType(const std::filesystem::directory_entry& entry) {
-    if (entry.is_directory()) {
+    std::error_code error;
+    if (entry.is_directory(error)) {
       return 'd';
-    } else if (entry.is_symlink()) {
+    } else if (entry.is_symlink(error)) {
       return 'l';
-    } else if (entry.is_regular_file()) {
+    } else if (entry.is_regular_file(error)) {
       return 'f';
-    } else if (entry.is_block_file()) {
+    } else if (entry.is_block_file(error)) {
       return 'b';
-    } else if (entry.is_character_file()) {
+    } else if (entry.is_character_file(error)) {
       return 'c';
-    } else if (entry.is_fifo()) {
+    } else if (entry.is_fifo(error)) {
       return 'p';
-    } else if (entry.is_socket()) {
+    } else if (entry.is_socket(error)) {
       return 's';
     }
     // NO 'o' for other: entry.is_other()) {
-- 
2.43.0


From 6abb77b152d83e39a5c3dd5801c7252e93b452c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 047/106] fix: glob: show the entries of a relative root

---
 mbo/file/glob_main.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/mbo/file/glob_main.cc b/mbo/file/glob_main.cc
index 39f65bc..2045c98 100644
--- a/mbo/file/glob_main.cc
+++ b/mbo/file/glob_main.cc
@@ -70,9 +70,8 @@ class Entries {
 
   ~Entries() = default;
 
-  explicit Entries(std::filesystem::path root)
-      : root_(std::move(root)),
-        dotdir_(absl::GetFlag(FLAGS_dotdir)),
+  Entries()
+      : dotdir_(absl::GetFlag(FLAGS_dotdir)),
         dotfile_(absl::GetFlag(FLAGS_dotfile)),
         show_fast_(absl::GetFlag(FLAGS_fast)),
         show_size_(absl::GetFlag(FLAGS_size)),
@@ -184,7 +183,7 @@ class Entries {
     if (show_depth_) {
       std::cout << absl::StreamFormat("%*s ", depth_len_, BigNumber(entry.glob_entry.depth));
     }
-    std::cout << entry.glob_entry.entry.path().lexically_relative(root_).native() << "\n";
+    std::cout << entry.glob_entry.MaybeRelativePath().native() << "\n";
   }
 
   void ComputeFieldLengths() const {
@@ -226,7 +225,6 @@ class Entries {
   }
 
  private:
-  const std::filesystem::path root_;
   const bool dotdir_{true};
   const bool dotfile_{true};
   const bool show_fast_{false};
@@ -318,12 +316,12 @@ int main(int argc, char** argv) {
           ? mbo::file::GlobSplit(root)
           : mbo::file::RootAndPattern{.root = std::string{root}, .pattern = args.at(2)};
   EXIT_IF_ERROR(root_pattern);
-  Entries entries(root_pattern->root);
+  Entries entries;
 
   const auto collect = std::bind_front(&Entries::Add, &entries);
   const auto result = absl::GetFlag(FLAGS_re2)  // NL
-                          ? mbo::file::GlobRe2(root_pattern, {}, collect)
-                          : mbo::file::Glob(root_pattern, {}, {}, collect);
+                          ? mbo::file::GlobRe2(root_pattern, {.use_rel_path = true}, collect)
+                          : mbo::file::Glob(root_pattern, {}, {.use_rel_path = true}, collect);
   EXIT_IF_ERROR(result);
   if (absl::GetFlag(FLAGS_entries) && !absl::GetFlag(FLAGS_fast)) {
     entries.PrintAllEntries();
-- 
2.43.0


From 8b38708ec08b9f512b1e2055e7a81afe9bcfbeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 048/106] fix: glob: take a character class as part of its
 range

---
 mbo/file/glob.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index 4506372..4045404 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -69,7 +69,7 @@ MBO_ALWAYS_INLINE absl::Status MaybeCharacterClass(std::string_view& glob_patter
     return absl::InvalidArgumentError("Unterminated character-class.");
   }
   MBO_RETURN_IF_ERROR(ValidateCharacterClass(glob_pattern.substr(2, end - 2)));
-  ++end;
+  end += 2;
   absl::StrAppend(&re2_pattern, glob_pattern.substr(0, end));
   glob_pattern.remove_prefix(end);
   return absl::OkStatus();
-- 
2.43.0


From 05764b82200187577b3aa67aeee9867e459ea3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 049/106] fix: glob: respect --noentries with --fast

---
 mbo/file/glob_main.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mbo/file/glob_main.cc b/mbo/file/glob_main.cc
index 2045c98..37c9a42 100644
--- a/mbo/file/glob_main.cc
+++ b/mbo/file/glob_main.cc
@@ -139,7 +139,9 @@ class Entries {
     };
     // Maybe Print
     if (show_fast_) {
-      PrintFastEntry(entry);
+      if (absl::GetFlag(FLAGS_entries)) {
+        PrintFastEntry(entry);
+      }
     } else {
       entries_.emplace(entry);
     }
-- 
2.43.0


From ff4236c97d0e18377f92bd2b18f770f15defe1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 050/106] fix: glob: skip everything below hidden directories
 with --nodotdir

---
 mbo/file/glob_main.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mbo/file/glob_main.cc b/mbo/file/glob_main.cc
index 37c9a42..3a7d3d4 100644
--- a/mbo/file/glob_main.cc
+++ b/mbo/file/glob_main.cc
@@ -92,6 +92,12 @@ class Entries {
   mbo::file::GlobEntryAction Add(const mbo::file::GlobEntry& glob_entry) {
     std::error_code error;  // The type of a link that cannot be resolved is not known.
     // Filter
+    if (!dotdir_ && std::ranges::any_of(glob_entry.MaybeRelativePath().parent_path(), [](const auto& part) {
+          return part.native().starts_with('.');
+        })) {
+      // The directory itself might not match the pattern in which case it was not seen.
+      return mbo::file::GlobEntryAction::kDoNotRecurse;
+    }
     if (glob_entry.entry.is_directory(error)) {
       if (!dotdir_ && glob_entry.entry.path().filename().string().starts_with('.')) {
         return mbo::file::GlobEntryAction::kDoNotRecurse;
-- 
2.43.0


From 7568f2091519ca622fe8e3e85d809124b94e4ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 051/106] fix: glob: align the sizes of links

---
 mbo/file/glob_main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/file/glob_main.cc b/mbo/file/glob_main.cc
index 3a7d3d4..94c7bd3 100644
--- a/mbo/file/glob_main.cc
+++ b/mbo/file/glob_main.cc
@@ -116,7 +116,6 @@ class Entries {
       ++files_;
       const std::size_t size = glob_entry.FileSize();
       size_ += size;
-      size_max_ = std::max(size_max_, size);
       if (sum_extensions_) {
         // NOLINTBEGIN(*-avoid-unchecked-container-access)
         // map insert: operator[] creates the entry, so there is no range to exceed.
@@ -138,6 +137,7 @@ class Entries {
     } else {
       ++other_;
     }
+    size_max_ = std::max(size_max_, glob_entry.FileSize());  // Links show the size of their target.
     depth_max_ = std::max(depth_max_, static_cast<std::size_t>(glob_entry.depth));
     ++seen_;
     Entry entry{
-- 
2.43.0


From dcee38fe1c91cc78bd0261fff53366c56a7759e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 052/106] fix: diff: pass --ignore_matching_chunks on

---
 mbo/diff/diff_main.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mbo/diff/diff_main.cc b/mbo/diff/diff_main.cc
index 2f48cbc..3900026 100644
--- a/mbo/diff/diff_main.cc
+++ b/mbo/diff/diff_main.cc
@@ -258,6 +258,7 @@ Diff::Options MakeDiffOptions() {
       .file_header_use = *file_header_use,
       .ignore_blank_lines = absl::GetFlag(FLAGS_ignore_blank_lines),
       .ignore_case = absl::GetFlag(FLAGS_ignore_case),
+      .ignore_matching_chunks = absl::GetFlag(FLAGS_ignore_matching_chunks),
       .ignore_all_space = absl::GetFlag(FLAGS_ignore_all_space),
       .ignore_consecutive_space = absl::GetFlag(FLAGS_ignore_consecutive_space),
       .ignore_trailing_space = absl::GetFlag(FLAGS_ignore_trailing_space),
-- 
2.43.0


From ef4662fe1b5e7f21912618341eaa8b11afd4999d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 053/106] fix: diff: ignore single lines if chunks are not to
 be ignored

---
 mbo/diff/internal/data.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/diff/internal/data.cc b/mbo/diff/internal/data.cc
index 8946501..1acb857 100644
--- a/mbo/diff/internal/data.cc
+++ b/mbo/diff/internal/data.cc
@@ -166,7 +166,7 @@ Data::LineCache Data::Process(
   return {
       .line = line,
       .processed = processed,
-      .matches_ignore = options.ignore_matching_chunks && options.ignore_matching_lines.has_value()
+      .matches_ignore = options.ignore_matching_lines.has_value()
                         && RE2::PartialMatch(processed, *options.ignore_matching_lines),
   };
 }
-- 
2.43.0


From be5cd956339743c3dadea87593f509e836c4ef57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 054/106] fix: diff: respect the options for a last line
 without newline

---
 mbo/diff/internal/data.cc | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/mbo/diff/internal/data.cc b/mbo/diff/internal/data.cc
index 1acb857..793ec8f 100644
--- a/mbo/diff/internal/data.cc
+++ b/mbo/diff/internal/data.cc
@@ -95,14 +95,9 @@ std::vector<Data::LineCache> Data::SplitAndAdaptLastLine(
   // suppresses the marker (the last line is processed like any other), equating the two forms. The
   // zero-length-input guard above still fires on the real `got_nl`, so "" is never equated with "\n".
   if (!got_nl && !options.ignore_missing_final_newline) {
-    if (!result.empty()) {
-      result.pop_back();
-    }
-    result.push_back({
-        .line = last_line,
-        .processed = last_line,
-        .matches_ignore = false,
-    });
+    LineCache& last = result.back();  // The text is not empty, so there is at least one line.
+    last.line = last_line;
+    last.processed = owned.emplace_back(absl::StrCat(last.processed, "\n\\ No newline at end of file"));
   }
   return result;
 }
-- 
2.43.0


From 01834a669dbe78371cd5ab59aca7bb76d7629287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 055/106] fix: diff: do not match the 'No newline' marker

---
 mbo/diff/internal/chunk.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbo/diff/internal/chunk.cc b/mbo/diff/internal/chunk.cc
index bbb5672..7a55b3e 100644
--- a/mbo/diff/internal/chunk.cc
+++ b/mbo/diff/internal/chunk.cc
@@ -51,7 +51,7 @@ void Chunk::PushLhs(std::size_t lhs_idx, std::size_t rhs_idx, std::string_view l
     return;
   }
   only_blank_lines_ &= lhs.empty();
-  only_matching_lines_ &= options_.ignore_matching_lines && RE2::PartialMatch(lhs, *options_.ignore_matching_lines);
+  only_matching_lines_ &= options_.ignore_matching_lines && RE2::PartialMatch(lhs.substr(0, lhs.find('\n')), *options_.ignore_matching_lines);
   CheckContext(lhs_idx, rhs_idx);
   lhs_.emplace_back(lhs);
   ++lhs_size_;
@@ -59,7 +59,7 @@ void Chunk::PushLhs(std::size_t lhs_idx, std::size_t rhs_idx, std::string_view l
 
 void Chunk::PushRhs(std::size_t lhs_idx, std::size_t rhs_idx, std::string_view rhs) {
   only_blank_lines_ &= rhs.empty();
-  only_matching_lines_ &= options_.ignore_matching_lines && RE2::PartialMatch(rhs, *options_.ignore_matching_lines);
+  only_matching_lines_ &= options_.ignore_matching_lines && RE2::PartialMatch(rhs.substr(0, rhs.find('\n')), *options_.ignore_matching_lines);
   CheckContext(lhs_idx, rhs_idx);
   rhs_.emplace_back(rhs);
   ++rhs_size_;
-- 
2.43.0


From df854199c9467d9d7d2bfc92b82027fc748386d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 056/106] fix: diff: support any context size

---
 mbo/diff/internal/context.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/diff/internal/context.h b/mbo/diff/internal/context.h
index 08d66d6..8b1cd94 100644
--- a/mbo/diff/internal/context.h
+++ b/mbo/diff/internal/context.h
@@ -39,7 +39,7 @@ class Context final {
 
   bool HalfFull() const noexcept { return Full(true); }
 
-  bool Full(bool half = false) const noexcept { return data_.size() >= (half ? Max() : 2 * Max()); }
+  bool Full(bool half = false) const noexcept { return (half ? data_.size() : data_.size() / 2) >= Max(); }
 
   bool Push(std::string_view line, bool half = false) {
     if (Max() == 0) {
-- 
2.43.0


From da2562cfa4a375c7342106d03ab24c9390a9ccde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:25 +0000
Subject: [PATCH 057/106] fix: diff: exit with 2 for bad flag values

---
 mbo/diff/diff_main.cc | 51 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/mbo/diff/diff_main.cc b/mbo/diff/diff_main.cc
index 3900026..144c2b7 100644
--- a/mbo/diff/diff_main.cc
+++ b/mbo/diff/diff_main.cc
@@ -28,6 +28,7 @@
 #include "absl/log/absl_log.h"
 #include "absl/log/initialize.h"
 #include "absl/status/statusor.h"
+#include "absl/strings/str_split.h"
 #include "mbo/diff/diff.h"
 #include "mbo/diff/internal/update_absl_log_flags.h"
 #include "mbo/file/artefact.h"
@@ -225,6 +226,53 @@ constexpr int kExitEqual = 0;
 constexpr int kExitDifferent = 1;
 constexpr int kExitTrouble = 2;
 
+// A bad regular expression would otherwise silently match nothing.
+bool CheckRegex(std::string_view flag_name, const std::string& regex) {
+  const RE2 re(regex, RE2::Quiet);
+  if (!re.ok()) {
+    ABSL_LOG(ERROR) << "ERROR: Bad regular expression for --" << flag_name << ": " << re.error();
+    return false;
+  }
+  return true;
+}
+
+// The value must be empty or exactly `<sep><regex><sep><replace><sep>`.
+bool CheckRegexReplace(std::string_view flag_name, std::string_view value) {
+  if (value.empty()) {
+    return true;
+  }
+  const std::vector<std::string> parts = absl::StrSplit(value, value.front());
+  if (parts.size() != 4 || !parts.at(3).empty()) {
+    ABSL_LOG(ERROR) << "ERROR: Bad format for --" << flag_name;
+    return false;
+  }
+  return CheckRegex(flag_name, parts.at(1));
+}
+
+// Validates the flags, so that bad usage results in `kExitTrouble` rather than
+// in a failing check, whose exit code is the same as `kExitDifferent`.
+bool CheckFlags() {
+  if (!Diff::Options::ParseAlgorithmFlag(absl::GetFlag(FLAGS_algorithm))) {
+    ABSL_LOG(ERROR) << "ERROR: Unknown algorithm";
+    return false;
+  }
+  if (!Diff::Options::ParseOutputFormatFlag(absl::GetFlag(FLAGS_format))) {
+    ABSL_LOG(ERROR) << "ERROR: Unknown format";
+    return false;
+  }
+  if (absl::GetFlag(FLAGS_algorithm) == "unified" && absl::GetFlag(FLAGS_format) != "unified") {
+    ABSL_LOG(ERROR) << "ERROR: The deprecated '--algorithm=unified' alias implies '--format=unified'.";
+    return false;
+  }
+  if (!Diff::Options::ParseFileHeaderUse(absl::GetFlag(FLAGS_file_header_use))) {
+    ABSL_LOG(ERROR) << "ERROR: Unknown file_header_use";
+    return false;
+  }
+  return CheckRegex("ignore_matching_lines", absl::GetFlag(FLAGS_ignore_matching_lines))
+         && CheckRegexReplace("regex_replace_lhs", absl::GetFlag(FLAGS_regex_replace_lhs))
+         && CheckRegexReplace("regex_replace_rhs", absl::GetFlag(FLAGS_regex_replace_rhs));
+}
+
 // Builds the diff options from the command-line flags. Split out of `Diff` so
 // that reading the inputs and reporting the result stay legible next to the
 // flag validation and the two option-building lambdas.
@@ -295,6 +343,9 @@ Diff::Options MakeDiffOptions() {
 }
 
 int Diff(std::string_view lhs_name, std::string_view rhs_name) {
+  if (!CheckFlags()) {
+    return kExitTrouble;
+  }
   const auto lhs = Read(lhs_name);
   if (!lhs.ok()) {
     return kExitTrouble;
-- 
2.43.0


From 4734fd8c6e8cc5197e63c66484b538659fbf9769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 058/106] fix: json: keep integers that are copied or given as
 lvalues

---
 mbo/json/json.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index 00786ad..03d9c74 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -57,11 +57,12 @@ using Object = absl::flat_hash_map<std::string, std::unique_ptr<Json>>;
 using Variant = std::variant<std::nullopt_t, Array, bool, Float, SignedInt, Object, std::string, UnsignedInt>;
 
 template<typename Value>
-concept JsonUseSignedInt = std::is_signed_v<Value> && std::integral<Value> && std::convertible_to<Value, SignedInt>;
+concept JsonUseSignedInt = std::is_signed_v<std::remove_cvref_t<Value>> && std::integral<std::remove_cvref_t<Value>>
+                           && std::convertible_to<Value, SignedInt>;
 
 template<typename Value>
-concept JsonUseUnsignedInt =
-    std::is_unsigned_v<Value> && std::integral<Value> && std::convertible_to<Value, UnsignedInt>;
+concept JsonUseUnsignedInt = std::is_unsigned_v<std::remove_cvref_t<Value>>
+                             && std::integral<std::remove_cvref_t<Value>> && std::convertible_to<Value, UnsignedInt>;
 
 template<typename Value>
 concept JsonUseFloat = !std::same_as<std::remove_cvref_t<Value>, bool>
-- 
2.43.0


From 3501aedce35415fc3fc2a436c3ee11029f5b045f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 059/106] fix: json: values() does not write to stdout

---
 mbo/json/json.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index 03d9c74..735d6c5 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -646,12 +646,10 @@ class Json {
     if (IsArray()) {
       auto& array = std::get<Array>(data_);
       MBO_CONFIG_REQUIRE_DEBUG(array != nullptr, "May not be nulltr.");
-      std::cout << "Array Size: " << array->size() << "\n" << std::flush;
       return {*this, array->begin(), array->end()};
     }
     MBO_CONFIG_REQUIRE(IsObject(), "Is neither Array nor Object.");
     auto& object = std::get<Object>(data_);
-    std::cout << "Object Size: " << object.size() << "\n" << std::flush;
     return {*this, object.begin(), object.end()};
   }
 
-- 
2.43.0


From 11004f24730e994d0052e040541cd99e17ad3bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 060/106] fix: json: compare objects by property name and not
 by hash order

---
 mbo/json/json.h | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index 735d6c5..fc4408a 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -18,6 +18,7 @@
 #ifndef MBO_JSON_JSON_H_
 #define MBO_JSON_JSON_H_
 
+#include <algorithm>
 #include <compare>
 #include <concepts>  // IWYU pragma: keep
 #include <cstdint>
@@ -30,6 +31,7 @@
 #include <type_traits>
 #include <utility>
 #include <variant>
+#include <vector>
 
 #include "absl/container/flat_hash_map.h"
 #include "mbo/config/require.h"
@@ -820,13 +822,26 @@ constexpr auto kJsonComparator = mbo::types::Overloaded{
     },
     [](const Json::Array& lhs, const Json::Array& rhs) { return types::WeakToStrong(*lhs <=> *rhs); },
     [](const Json::Object& lhs, const Json::Object& rhs) -> std::strong_ordering {
-      auto lhs_it = lhs.begin();
-      auto rhs_it = rhs.begin();
-      while (lhs_it != lhs.end() && rhs_it != rhs.end()) {
-        if (auto comp = types::WeakToStrong(lhs_it->first <=> rhs_it->first); comp != std::strong_ordering::equal) {
+      // Objects have no order of their own, so compare in the order of the property names.
+      const auto ordered = [](const Json::Object& object) {
+        std::vector<const Json::Object::value_type*> properties;
+        properties.reserve(object.size());
+        for (const auto& property : object) {
+          properties.push_back(&property);
+        }
+        std::ranges::sort(properties, {}, [](const auto* property) -> const std::string& { return property->first; });
+        return properties;
+      };
+      const auto lhs_ordered = ordered(lhs);
+      const auto rhs_ordered = ordered(rhs);
+      auto lhs_it = lhs_ordered.begin();
+      auto rhs_it = rhs_ordered.begin();
+      while (lhs_it != lhs_ordered.end() && rhs_it != rhs_ordered.end()) {
+        if (auto comp = types::WeakToStrong((*lhs_it)->first <=> (*rhs_it)->first);
+            comp != std::strong_ordering::equal) {
           return comp;
         }
-        if (auto comp = lhs_it->second <=> rhs_it->second; comp != std::strong_ordering::equal) {
+        if (auto comp = (*lhs_it)->second <=> (*rhs_it)->second; comp != std::strong_ordering::equal) {
           return comp;
         }
         ++lhs_it;
-- 
2.43.0


From 42557eeac56f024f7e4a2d01407a822cc7521da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 061/106] fix: json: leave moved-from values as Null and
 support moving from own parts

---
 mbo/json/json.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index fc4408a..ee706ce 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -319,8 +319,15 @@ class Json {
     return *this;
   }
 
-  Json(Json&&) noexcept = default;
-  Json& operator=(Json&&) noexcept = default;
+  // A moved from `Json` becomes Null (and not an `Array` without a vector).
+  Json(Json&& other) noexcept : data_(std::exchange(other.data_, Variant{std::nullopt})) {}
+
+  Json& operator=(Json&& other) noexcept {
+    // Take the value out of `other` first as it might be a part of the current value.
+    Variant data = std::exchange(other.data_, Variant{std::nullopt});
+    data_ = std::move(data);
+    return *this;
+  }
 
   explicit Json(std::nullopt_t /*value*/) noexcept : data_{std::nullopt} {}
 
-- 
2.43.0


From 7fc0a48c8cba7e38a51fe112bc795a8a66dae590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 062/106] fix: json: assign non-const values of any kind

---
 mbo/json/json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index ee706ce..67db86c 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -767,7 +767,7 @@ class Json {
     } else if constexpr (JsonUseArray<Value>) {
       data_.emplace<Array>(std::make_unique<Array::element_type>(*value));
     } else if constexpr (JsonUseObject<Value>) {
-      CopyObject(value);
+      *this = std::as_const(value);  // The value may be of any kind and might be `*this`.
     } else {
       MBO_CONFIG_REQUIRE(false, "Bad type: ") << log::DemangleV(value);
     }
-- 
2.43.0


From 9af4b3939e92e208948de31ba2e26d3e5cf985c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 063/106] fix: types: Stringify writes valid JSON strings, keys
 and numbers

---
 mbo/types/stringify.cc | 62 ++++++++++++++++++++++++++++++++++++++++++
 mbo/types/stringify.h  | 32 ++++++++++++++++++++--
 2 files changed, 92 insertions(+), 2 deletions(-)

diff --git a/mbo/types/stringify.cc b/mbo/types/stringify.cc
index a6b7f06..621865f 100644
--- a/mbo/types/stringify.cc
+++ b/mbo/types/stringify.cc
@@ -15,8 +15,16 @@
 
 #include "mbo/types/stringify.h"
 
+#include <cmath>
 #include <ios>
+#include <limits>
 #include <sstream>
+#include <string>
+#include <string_view>
+
+#include "absl/strings/numbers.h"
+#include "absl/strings/str_cat.h"
+#include "absl/strings/str_format.h"
 
 namespace mbo::types {
 
@@ -45,6 +53,60 @@ std::string StringifyOptions::DebugStr() const {
   return out.str();
 }
 
+namespace types_internal {
+
+std::string JsonEscape(std::string_view str) {
+  std::string result;
+  result.reserve(str.size());
+  for (const char chr : str) {
+    switch (chr) {
+      case '"': result += "\\\""; break;
+      case '\\': result += "\\\\"; break;
+      case '\n': result += "\\n"; break;
+      case '\r': result += "\\r"; break;
+      case '\t': result += "\\t"; break;
+      default:
+        if (static_cast<unsigned char>(chr) < ' ') {
+          absl::StrAppendFormat(&result, "\\u%04x", static_cast<unsigned>(static_cast<unsigned char>(chr)));
+        } else {
+          result += chr;
+        }
+        break;
+    }
+  }
+  return result;
+}
+
+namespace {
+
+template<typename Float>
+std::string JsonNumberImpl(Float value) {
+  if (!std::isfinite(value)) {
+    return "null";
+  }
+  std::string result;
+  for (int digits = std::numeric_limits<float>::digits10; digits <= std::numeric_limits<Float>::max_digits10; ++digits) {
+    result = absl::StrFormat("%.*g", digits, value);
+    double parsed = 0.0;
+    if (absl::SimpleAtod(result, &parsed) && static_cast<Float>(parsed) == value) {
+      break;
+    }
+  }
+  return result;
+}
+
+}  // namespace
+
+std::string JsonNumber(float value) {
+  return JsonNumberImpl(value);
+}
+
+std::string JsonNumber(double value) {
+  return JsonNumberImpl(value);
+}
+
+}  // namespace types_internal
+
 std::string StringifyFieldOptions::DebugStr() const {
   return absl::StrCat("Outer: ", outer.DebugStr(), "Inner: ", inner.DebugStr());
 }
diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index 45c4953..972f14d 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -185,6 +185,7 @@ struct StringifyOptions {
     kNone,        // Values are printed as is.
     kCEscape,     // Values are C-escaped.
     kCHexEscape,  // Values are C-HEX-escaped.
+    kJson,        // Values and keys are JSON-escaped (UTF-8 is kept), numbers are valid JSON and not shortened.
   };
 
   friend std::ostream& operator<<(std::ostream& os, const EscapeMode& value) {
@@ -192,6 +193,7 @@ struct StringifyOptions {
       case EscapeMode::kNone: break;
       case EscapeMode::kCEscape: return os << "EscapeMode::kCEscape";
       case EscapeMode::kCHexEscape: return os << "EscapeMode::kCHexEscape";
+      case EscapeMode::kJson: return os << "EscapeMode::kJson";
     }
     return os << "EscapeMode::kNone";
   }
@@ -627,6 +629,17 @@ concept HasMboTypesStringifyConvert = requires {
   { T::MboTypesStringifyConvert(std::size_t{}, std::declval<const T&>(), std::declval<const V&>()) };
 };
 
+namespace types_internal {
+
+// Escapes `str` for use in a JSON string.
+std::string JsonEscape(std::string_view str);
+
+// The JSON number with the fewest (but at least 6) digits that identifies `value`, or `null` if there is none.
+std::string JsonNumber(float value);
+std::string JsonNumber(double value);
+
+}  // namespace types_internal
+
 // Class `Stringify` implements the conversion of any aggregate into a string.
 class Stringify {
  public:
@@ -1154,7 +1167,13 @@ class Stringify {
       field_name = field.name;
     }
     if (!field_name.empty()) {
-      os << key_control.key_prefix << field_name << key_control.key_suffix << format.key_value_separator;
+      os << key_control.key_prefix;
+      if (field.options.outer.value_control->escape_mode == StringifyOptions::EscapeMode::kJson) {
+        os << types_internal::JsonEscape(field_name);
+      } else {
+        os << field_name;
+      }
+      os << key_control.key_suffix << format.key_value_separator;
     } else if (key_control.key_mode == StringifyOptions::KeyMode::kNumericFallback) {
       os << key_control.key_prefix << field.idx << key_control.key_suffix << format.key_value_separator;
     }
@@ -1300,7 +1319,7 @@ class Stringify {
         os << absl::StreamFormat("%v", int(v));
       } else {
         os << options.outer.format->char_delim;
-        if (v == '\'') {
+        if (v == '\'' && options.outer.value_control->escape_mode == StringifyOptions::EscapeMode::kNone) {
           StreamValueStr(os, options.outer, "\\'");
         } else {
           const std::string_view vv{reinterpret_cast<const char*>(&v), 1};  // NOLINT(*-type-reinterpret-cast)
@@ -1310,6 +1329,13 @@ class Stringify {
       }
     } else if constexpr (std::is_arithmetic_v<RawV>) {
       if (options.outer.value_overrides->replacement_other.empty()) {
+        if constexpr (std::floating_point<RawV>) {
+          if (options.outer.value_control->escape_mode == StringifyOptions::EscapeMode::kJson) {
+            using JsonFloat = std::conditional_t<std::same_as<RawV, float>, float, double>;
+            os << types_internal::JsonNumber(static_cast<JsonFloat>(v));
+            return;
+          }
+        }
         os << absl::StreamFormat("%v", v);
       } else {
         os << options.outer.value_overrides->replacement_other;
@@ -1411,6 +1437,7 @@ class Stringify {
       case StringifyOptions::EscapeMode::kNone: os << vvv; break;
       case StringifyOptions::EscapeMode::kCEscape: os << absl::CEscape(vvv); break;
       case StringifyOptions::EscapeMode::kCHexEscape: os << absl::CHexEscape(vvv); break;
+      case StringifyOptions::EscapeMode::kJson: os << types_internal::JsonEscape(vvv); break;
     }
     if (vvv.length() < v.length()) {
       os << options.value_control->str_cutoff_suffix;
@@ -1481,6 +1508,7 @@ class Stringify {
           .key_suffix = "\"",
       }},
       .value_control{StringifyOptions::ValueControl{
+          .escape_mode = StringifyOptions::EscapeMode::kJson,
           .nullptr_t_str = "null",
           .nullptr_v_str = "null",
           .nullopt_str = "null",
-- 
2.43.0


From 920af14cf86859710d5adec2f2a3d986dcaaae5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 064/106] fix: json: convert value iterators to const ones and
 erase by them

---
 mbo/json/json.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index 67db86c..b589443 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -146,7 +146,9 @@ class Json {
 
     value_iterator_t(const mutable_iterator& other) noexcept
     requires std::same_as<value_iterator_t, const_iterator>
-        : it_(other.it_) {}
+    {
+      *this = other;
+    }
 
     value_iterator_t& operator=(const mutable_iterator& other) noexcept
     requires std::same_as<value_iterator_t, const_iterator>
@@ -157,7 +159,9 @@ class Json {
 
     value_iterator_t(mutable_iterator&& other) noexcept
     requires std::same_as<value_iterator_t, const_iterator>
-        : it_(other.it_) {}
+    {
+      *this = std::move(other);
+    }
 
     value_iterator_t& operator=(mutable_iterator&& other) noexcept
     requires std::same_as<value_iterator_t, const_iterator>
@@ -565,6 +569,13 @@ class Json {
     return value_iterator{std::get<Object>(data_).erase(pos, ++end)};
   }
 
+  // Without these a `value_iterator` could be converted to either of the const iterators.
+  value_iterator erase(value_iterator pos) { return erase(const_value_iterator{pos}); }
+
+  value_iterator erase(value_iterator first, value_iterator last) {
+    return erase(const_value_iterator{first}, const_value_iterator{last});
+  }
+
   value_iterator erase(const_value_iterator first, const_value_iterator last) {
     if (IsArray()) {
       return value_iterator{std::get<Array>(data_)->erase(first, last)};
-- 
2.43.0


From fe7c625a64397bed92e35b6bd2178fb409ad5327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:56 +0000
Subject: [PATCH 065/106] fix: types: Stringify keeps empty keys of containers

---
 mbo/types/stringify.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index 972f14d..ff6f4ab 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -1166,7 +1166,8 @@ class Stringify {
     if (field_name.empty()) {
       field_name = field.name;
     }
-    if (!field_name.empty()) {
+    // If there is no override, then the name is the key of a container element which is known even if it is empty.
+    if (!field_name.empty() || !allow_key_override) {
       os << key_control.key_prefix;
       if (field.options.outer.value_control->escape_mode == StringifyOptions::EscapeMode::kJson) {
         os << types_internal::JsonEscape(field_name);
-- 
2.43.0


From c812051d5936dfdf01a01dca00b6e4569be7d466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:31 +0000
Subject: [PATCH 066/106] fix: Stringify names the fields of pairs in variants
 and accessed values where names are required

---
 mbo/types/stringify.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index ff6f4ab..3dcc1a4 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -917,7 +917,7 @@ class Stringify {
       const StringifyFieldOptions& options,
       const T& value,
       bool use_field_names = !HasMboTypesStringifyDoNotPrintFieldNames<T>) const {
-    use_field_names |= options.outer.key_control->key_mode == StringifyOptions::KeyMode::kNumericFallback;
+    use_field_names |= RequiresFieldNames(options.outer);
     bool use_sep = false;
     const auto& field_names = GetFieldNames(value);
     std::apply(
@@ -1107,6 +1107,11 @@ class Stringify {
     StreamValue(os, field_info.options, field, allow_field_names);
   }
 
+  // Whether every field needs a name, because a numeric one is used where there is no other (e.g. Json).
+  static bool RequiresFieldNames(const StringifyOptions& options) {
+    return options.key_control->key_mode == StringifyOptions::KeyMode::kNumericFallback;
+  }
+
   static bool StreamFieldKeyEnabled(const StringifyOptions& options, SpecialFieldValue is_special) {
     switch (is_special) {
       case SpecialFieldValue::kNoSuppress: break;
@@ -1268,7 +1273,7 @@ class Stringify {
           if constexpr (IsAggregate<ArgT> || IsStringKeyedContainer<ArgT>) {
             StreamImpl<ArgT>(os, options, arg);
           } else {
-            StreamValue(os, options, arg, false);
+            StreamValue(os, options, arg, RequiresFieldNames(options.outer));
           }
         },
         value);
@@ -1278,7 +1283,7 @@ class Stringify {
   requires(!IsStringKeyedContainer<T>)
   void StreamValue(OStream& os, const StringifyFieldOptions& options, const T& value, bool /*allow_field_names*/)
       const {
-    StreamValue(os, options, MboTypesStringifyValueAccess(value, options), false);
+    StreamValue(os, options, MboTypesStringifyValueAccess(value, options), RequiresFieldNames(options.outer));
   }
 
   template<typename T>
-- 
2.43.0


From 9fd11e9cd00b1f0964d11b903bf0687ada8b14ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:31 +0000
Subject: [PATCH 067/106] fix: Stringify suppresses pointer, optional and
 disabled fields with option suppress

---
 mbo/types/stringify.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index 3dcc1a4..d9306d4 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -1113,13 +1113,12 @@ class Stringify {
   }
 
   static bool StreamFieldKeyEnabled(const StringifyOptions& options, SpecialFieldValue is_special) {
+    if (options.field_control->suppress) {
+      return false;
+    }
     switch (is_special) {
       case SpecialFieldValue::kNoSuppress: break;
-      case SpecialFieldValue::kNormal:
-        if (options.field_control->suppress) {
-          return false;
-        }
-        break;
+      case SpecialFieldValue::kNormal: break;
       case SpecialFieldValue::kIsNullptr:
         if (options.field_control->suppress_nullptr) {
           return false;
-- 
2.43.0


From 18f2adf8716491f04d2e1d230587eac6d80bcbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 068/106] fix: StatusBuilder puts text in front of the message
 after SetPrepend without Append

---
 mbo/status/status_builder.cc | 14 +++++++++++---
 mbo/status/status_builder.h  |  1 +
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/mbo/status/status_builder.cc b/mbo/status/status_builder.cc
index 505af1a..567c7f6 100644
--- a/mbo/status/status_builder.cc
+++ b/mbo/status/status_builder.cc
@@ -15,6 +15,7 @@
 
 #include "mbo/status/status_builder.h"
 
+#include <string>
 #include <string_view>
 #include <utility>
 
@@ -25,6 +26,9 @@
 namespace mbo::status {
 
 StatusBuilder& StatusBuilder::SetPrepend() & {
+  if (data_ && !data_->appended) {
+    data_->prepend = true;
+  }
   return *this;
 }
 
@@ -52,9 +56,13 @@ StatusBuilder::operator absl::Status() const & {
   if (!data_) {
     return absl::OkStatus();
   }
-  absl::Status result(
-      data_->status.code(),
-      data_->appended ? data_->stream.str() : absl::StrCat(data_->status.message(), data_->stream.str()));
+  std::string message = data_->stream.str();
+  if (data_->prepend && !data_->appended) {
+    absl::StrAppend(&message, data_->status.message());
+  } else if (!data_->appended) {
+    message = absl::StrCat(data_->status.message(), message);
+  }
+  absl::Status result(data_->status.code(), message);
   data_->status.ForEachPayload(
       [&result](std::string_view url, const absl::Cord& payload) { result.SetPayload(url, payload); });
   return result;
diff --git a/mbo/status/status_builder.h b/mbo/status/status_builder.h
index 095df2d..847ced3 100644
--- a/mbo/status/status_builder.h
+++ b/mbo/status/status_builder.h
@@ -127,6 +127,7 @@ class StatusBuilder final {
   struct Data {
     absl::Status status;
     std::stringstream stream;
+    bool prepend = false;  // The streamed text goes in front of the message.
     bool appended = false;
   };
 
-- 
2.43.0


From 0960f02bfcd88d1faea9fd7e50b89ae4716046e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 069/106] fix: MBO_RETURN_IF_ERROR no longer hides variables
 named var

---
 mbo/status/status_macros.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mbo/status/status_macros.h b/mbo/status/status_macros.h
index 6560481..fe59836 100644
--- a/mbo/status/status_macros.h
+++ b/mbo/status/status_macros.h
@@ -42,12 +42,12 @@
 // ```
 //
 // NOLINTNEXTLINE(cppcoreguidelines-macro-usage)
-#define MBO_RETURN_IF_ERROR(expr)                                                    \
-  MBO_PRIVATE_STATUS_STATUS_MACROS_ELSE_BLOCKER_                                     \
-  if (auto var = (expr); var.ok()) { /* NOLINT(*-unnecessary-copy-initialization) */ \
-    /* GOOD */                                                                       \
-  } else                                                                             \
-    return mbo::status::StatusBuilder(var)
+#define MBO_RETURN_IF_ERROR(expr)                                                                              \
+  MBO_PRIVATE_STATUS_STATUS_MACROS_ELSE_BLOCKER_                                                               \
+  if (auto _mbo_status_macro_var_ = (expr); _mbo_status_macro_var_.ok()) { /* NOLINT(*-unnecessary-copy-*) */ \
+    /* GOOD */                                                                                                 \
+  } else                                                                                                       \
+    return mbo::status::StatusBuilder(_mbo_status_macro_var_)
 
 // Similar to MBO_RETURN_IF_ERROR but this assigns the result of an `absl::StatusOr<T>`, to a target
 // which can be an existing variable or a new variable declaration. The asignment is by move.
-- 
2.43.0


From a34c25e6d74f1540984a62b3e31a21dfbf619f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 070/106] fix: WhenTransformedBy owns its transformer and
 matcher

---
 mbo/testing/matchers.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mbo/testing/matchers.h b/mbo/testing/matchers.h
index bbfd0dc..cf22fbf 100644
--- a/mbo/testing/matchers.h
+++ b/mbo/testing/matchers.h
@@ -348,12 +348,12 @@ class WhenTransformedByMatcher {
     }
 
    private:
-    const Transformer& transformer_;
+    const Transformer transformer_;
     const MatcherType container_matcher_;
   };
 
-  const Transformer& transformer_;
-  const ContainerMatcher& container_matcher_;
+  const Transformer transformer_;
+  const ContainerMatcher container_matcher_;
 };
 
 }  // namespace testing_internal
@@ -388,7 +388,8 @@ class WhenTransformedByMatcher {
 // standard container matchers work as expected.
 template<typename Transformer, typename ContainerMatcher>
 inline auto WhenTransformedBy(const Transformer& transformer, const ContainerMatcher& container_matcher) {
-  return testing_internal::WhenTransformedByMatcher(transformer, container_matcher);
+  return testing_internal::WhenTransformedByMatcher<std::decay_t<Transformer>, ContainerMatcher>(
+      transformer, container_matcher);
 }
 
 namespace testing_internal {
-- 
2.43.0


From ca65da17aca0224590f0e6bd0a393ed899f2f449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 071/106] fix: Optional references to partially ordered types
 can be compared, also with nullopt

---
 mbo/types/optional_data_or_ref.h | 4 ++--
 mbo/types/optional_ref.h         | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/mbo/types/optional_data_or_ref.h b/mbo/types/optional_data_or_ref.h
index e5c21ea..b536058 100644
--- a/mbo/types/optional_data_or_ref.h
+++ b/mbo/types/optional_data_or_ref.h
@@ -254,11 +254,11 @@ class OptionalDataOrRef {
   template<std::three_way_comparable_with<T> U = T, typename RefU = U>
   constexpr auto operator<=>(const OptionalDataOrRef<U, RefU>& rhs) const {
     using Result = decltype(std::declval<T>() <=> std::declval<T>());
-    if (Result result = has_value() <=> rhs.has_value(); result != Result::equal) {
+    if (Result result = has_value() <=> rhs.has_value(); result != 0) {
       return result;
     }
     if (!has_value()) {
-      return Result::equal;
+      return Result::equivalent;
     }
     return value() <=> rhs.value();
   }
diff --git a/mbo/types/optional_ref.h b/mbo/types/optional_ref.h
index 1e8ae60..f220da1 100644
--- a/mbo/types/optional_ref.h
+++ b/mbo/types/optional_ref.h
@@ -123,18 +123,18 @@ class OptionalRef {
   template<std::three_way_comparable_with<T> U = T>
   constexpr auto operator<=>(const OptionalRef<U>& rhs) const {
     using Result = decltype(std::declval<T>() <=> std::declval<T>());
-    if (Result result = has_value() <=> rhs.has_value(); result != Result::equal) {
+    if (Result result = has_value() <=> rhs.has_value(); result != 0) {
       return result;
     }
     if (!has_value()) {
-      return Result::equal;
+      return Result::equivalent;
     }
     return value() <=> rhs.value();
   }
 
   constexpr bool operator==(std::nullopt_t /*unused*/) const noexcept { return v_ == nullptr; }
 
-  constexpr bool operator<(std::nullopt_t /*unused*/) const noexcept { return v_ < nullptr; }
+  constexpr bool operator<(std::nullopt_t /*unused*/) const noexcept { return false; }
 
   constexpr std::strong_ordering operator<=>(std::nullopt_t /*unused*/) const noexcept {
     if (!has_value()) {
-- 
2.43.0


From a29f30f4b918f9d099be4320abc051db5d15db3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 072/106] fix: Assigning nullopt to OptionalDataOrRef returns a
 reference

---
 mbo/types/optional_data_or_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/types/optional_data_or_ref.h b/mbo/types/optional_data_or_ref.h
index b536058..b72abd0 100644
--- a/mbo/types/optional_data_or_ref.h
+++ b/mbo/types/optional_data_or_ref.h
@@ -123,7 +123,7 @@ class OptionalDataOrRef {
     return *this;
   }
 
-  constexpr OptionalDataOrRef& operator=(std::nullopt_t /* unused */) { reset(); }
+  constexpr OptionalDataOrRef& operator=(std::nullopt_t /* unused */) { return reset(); }
 
   constexpr OptionalDataOrRef& operator=(value_type&& v) {
     emplace(std::move(v));
-- 
2.43.0


From a6c47959408fc092cb161a678353ce65b919149c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 073/106] fix: Moving an OptionalDataOrRef destroys the
 moved-from value and may move to itself

---
 mbo/types/optional_data_or_ref.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mbo/types/optional_data_or_ref.h b/mbo/types/optional_data_or_ref.h
index b72abd0..c6b1fdb 100644
--- a/mbo/types/optional_data_or_ref.h
+++ b/mbo/types/optional_data_or_ref.h
@@ -103,8 +103,7 @@ class OptionalDataOrRef {
   {
     if (other.is_val_) {
       emplace(std::move(other.union_.val));
-      other.is_val_ = false;
-      other.union_.ptr = nullptr;
+      other.reset();
     } else {
       Destruct(other.union_.ptr);
     }
@@ -113,10 +112,12 @@ class OptionalDataOrRef {
   constexpr OptionalDataOrRef& operator=(OptionalDataOrRef&& other)
   requires std::move_constructible<T>
   {
+    if (this == &other) {
+      return *this;
+    }
     if (other.is_val_) {
       emplace(std::move(other.union_.val));
-      other.is_val_ = false;
-      other.union_.ptr = nullptr;
+      other.reset();
     } else {
       Destruct(other.union_.ptr);
     }
@@ -126,7 +127,9 @@ class OptionalDataOrRef {
   constexpr OptionalDataOrRef& operator=(std::nullopt_t /* unused */) { return reset(); }
 
   constexpr OptionalDataOrRef& operator=(value_type&& v) {
-    emplace(std::move(v));
+    if (!is_val_ || &v != &union_.val) {
+      emplace(std::move(v));
+    }
     return *this;
   }
 
-- 
2.43.0


From 6d3869348e433a6ebe05b88fa567bb8e2ff875ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 074/106] fix: OptionalDataOrConstRef can be assigned from
 lvalues

---
 mbo/types/optional_data_or_ref.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mbo/types/optional_data_or_ref.h b/mbo/types/optional_data_or_ref.h
index c6b1fdb..7c58205 100644
--- a/mbo/types/optional_data_or_ref.h
+++ b/mbo/types/optional_data_or_ref.h
@@ -138,6 +138,8 @@ class OptionalDataOrRef {
   constexpr OptionalDataOrRef& operator=(U&& v) noexcept {
     if constexpr (std::is_rvalue_reference_v<decltype(v)>) {  // NOLINT(*-branch-clone)
       emplace(std::forward<U>(v));
+    } else if constexpr (std::is_const_v<RefT>) {
+      emplace(value_type(std::forward<U>(v)));
     } else if (has_value()) {
       value() = std::forward<U>(v);
     } else {
-- 
2.43.0


From 4f972b04ba32da55bb5d5cb0272e856e5a2be2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 075/106] fix: MBO_MAKE_TSTRING can be used in any namespace

---
 mbo/types/tstring.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mbo/types/tstring.h b/mbo/types/tstring.h
index 6f50f00..7888cc1 100644
--- a/mbo/types/tstring.h
+++ b/mbo/types/tstring.h
@@ -599,10 +599,11 @@ constexpr auto make_ts(const char(&str)[N]) noexcept {
 // that the length can be computed correctly. As a result the macro may support
 // zero chars - as long as the compiler correctly handles length detection.
 // NOLINTNEXTLINE(cppcoreguidelines-macro-usage)
-#define MBO_MAKE_TSTRING(str)                                                                     \
-  []<std::size_t... Is>(std::index_sequence<Is...>) constexpr noexcept -> tstring<(str)[Is]...> { \
-    return {};                                                                                    \
-  }(std::make_index_sequence<types_internal::tstring_input_len(str)>{})
+#define MBO_MAKE_TSTRING(str)                                              \
+  []<std::size_t... Is>(                                                   \
+      std::index_sequence<Is...>) constexpr noexcept -> ::mbo::types::tstring<(str)[Is]...> { \
+    return {};                                                             \
+  }(std::make_index_sequence<::mbo::types::types_internal::tstring_input_len(str)>{})
 
 #if defined(__clang__)
 # pragma clang diagnostic pop
-- 
2.43.0


From d9ce61b2e0bbc14fdf27787eeea74e494e8fbf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 076/106] fix: std::hash of tstring is available for the plain
 type

---
 mbo/types/tstring.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mbo/types/tstring.h b/mbo/types/tstring.h
index 7888cc1..5582ac9 100644
--- a/mbo/types/tstring.h
+++ b/mbo/types/tstring.h
@@ -633,6 +633,10 @@ struct hash<const mbo::types::tstring<chars...>> {  // NOLINT(cert-dcl58-cpp)
   }
 };
 
+// `std::hash` is looked up for the plain type by the standard containers.
+template<char... chars>
+struct hash<mbo::types::tstring<chars...>> : hash<const mbo::types::tstring<chars...>> {};  // NOLINT(cert-dcl58-cpp)
+
 }  // namespace std
 
 #endif  // MBO_TYPES_TSTRING_H_
-- 
2.43.0


From 28822f8673de0185e33550ddcbfd7ad4d054f30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 077/106] fix: NoDestruct can be hashed and formatted

---
 mbo/types/no_destruct.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbo/types/no_destruct.h b/mbo/types/no_destruct.h
index 6624c59..10fabe5 100644
--- a/mbo/types/no_destruct.h
+++ b/mbo/types/no_destruct.h
@@ -102,12 +102,12 @@ class NoDestruct final {
 
   template<typename H>
   friend H AbslHashValue(H hash, const NoDestruct<T>& v) {
-    return H::combine(std::move(hash), absl::HashOf<>(*v.data_));
+    return H::combine(std::move(hash), absl::HashOf<>(v.Get()));
   }
 
   template<typename Sink>
   friend void AbslStringify(Sink& sink, const NoDestruct<T>& v) {
-    absl::Format(&sink, "%v", v.data_);
+    absl::Format(&sink, "%v", v.Get());
   }
 
  private:
-- 
2.43.0


From 387e88870f7d198c026e1710acd22293c4b8bc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 078/106] fix: ContainerProxy offers pop_front, clear and const
 front

---
 mbo/types/container_proxy.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mbo/types/container_proxy.h b/mbo/types/container_proxy.h
index 1031eb2..5403847 100644
--- a/mbo/types/container_proxy.h
+++ b/mbo/types/container_proxy.h
@@ -103,7 +103,7 @@ struct ContainerProxy : T {
   constexpr auto max_size() const requires(requires(const C& v) { v.max_size(); }) { return Get().max_size(); }
   constexpr auto capacity() const requires(requires(const C& v) { v.capacity(); }) { return Get().capacity(); }
 
-  constexpr void clear() requires(requires(const C& v) { v.clear(); }) { Get().clear(); }
+  constexpr void clear() requires(requires(C& v) { v.clear(); }) { Get().clear(); }
   constexpr void reserve(size_type capacity) requires(requires(C& v) { v.reserve(std::declval<size_type>()); }) { Get().reserve(capacity); }
   constexpr void resize(size_type size) requires(requires(C& v) { v.resize(std::declval<size_type>()); }) { Get().resize(size); }
 
@@ -146,11 +146,11 @@ struct ContainerProxy : T {
 
   constexpr auto& back() const requires(requires(const C& v) { v.back(); }) { return Get().back(); }
   constexpr auto& back() requires(requires(C& v) { v.back(); }) { return Get().back(); }
-  constexpr auto& front() const requires(requires(const T& v) { v.front(); }) { return Get().front(); }
+  constexpr auto& front() const requires(requires(const C& v) { v.front(); }) { return Get().front(); }
   constexpr auto& front() requires(requires(C& v) { v.front(); }) { return Get().front(); }
 
   constexpr void pop_back() requires(requires(C& v) { v.pop_back(); }) { Get().pop_back(); }
-  constexpr void pop_front() requires(requires(C& v) { v.pop_frontk(); }) { Get().pop_front(); }
+  constexpr void pop_front() requires(requires(C& v) { v.pop_front(); }) { Get().pop_front(); }
 
   auto operator<=>(const ContainerProxy& other) const
   requires std::three_way_comparable<T>
-- 
2.43.0


From 06d5401ceae3523fbfc9b658133bb81a76922235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 079/106] fix: OpaqueValue and ContainerProxy can be compared

---
 mbo/types/container_proxy.h | 17 +++++++++++++++--
 mbo/types/opaque.h          | 12 ++++++++++++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/mbo/types/container_proxy.h b/mbo/types/container_proxy.h
index 5403847..ebbe0e5 100644
--- a/mbo/types/container_proxy.h
+++ b/mbo/types/container_proxy.h
@@ -17,6 +17,7 @@
 #define MBO_TYPES_CONTAINER_PROXY_H_
 
 #include <compare>
+#include <concepts>  // IWYU pragma: keep
 #include <cstddef>
 #include <type_traits>
 #include <utility>
@@ -153,17 +154,29 @@ struct ContainerProxy : T {
   constexpr void pop_front() requires(requires(C& v) { v.pop_front(); }) { Get().pop_front(); }
 
   auto operator<=>(const ContainerProxy& other) const
-  requires std::three_way_comparable<T>
+  requires std::three_way_comparable<C>
   {
     return Get() <=> other.Get();
   }
 
   auto operator<=>(const C& other) const
-  requires std::three_way_comparable<T>
+  requires std::three_way_comparable<C>
   {
     return Get() <=> other;
   }
 
+  bool operator==(const ContainerProxy& other) const
+  requires std::equality_comparable<C>
+  {
+    return Get() == other.Get();
+  }
+
+  bool operator==(const C& other) const
+  requires std::equality_comparable<C>
+  {
+    return Get() == other;
+  }
+
   template<typename H>
   friend H AbslHashValue(H hash, const ContainerProxy& proxy) {
     return H::combine(std::move(hash), absl::HashOf<>(proxy.Get()));
diff --git a/mbo/types/opaque.h b/mbo/types/opaque.h
index 3315c71..7506c50 100644
--- a/mbo/types/opaque.h
+++ b/mbo/types/opaque.h
@@ -122,6 +122,18 @@ struct OpaqueValue {
     return *ptr_ <=> other;
   }
 
+  bool operator==(const OpaqueValue& other) const
+  requires std::equality_comparable<T>
+  {
+    return *ptr_ == *other.ptr_;
+  }
+
+  bool operator==(const T& other) const
+  requires std::equality_comparable<T>
+  {
+    return *ptr_ == other;
+  }
+
   template<typename H>
   friend H AbslHashValue(H hash, const OpaqueValue<T>& ptr) {
     return H::combine(std::move(hash), absl::HashOf<>(*ptr.ptr_));
-- 
2.43.0


From fec93383a0e57a557bbbfa9ad9df20a0b834c2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 080/106] fix: Non const OpaqueValue variables can be copied

---
 mbo/types/opaque.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mbo/types/opaque.h b/mbo/types/opaque.h
index 7506c50..e0e48c4 100644
--- a/mbo/types/opaque.h
+++ b/mbo/types/opaque.h
@@ -21,6 +21,7 @@
 #include <cstddef>
 #include <memory>
 #include <type_traits>
+#include <utility>
 
 #include "absl/hash/hash.h"
 #include "mbo/types/container_proxy.h"  // IWYU pragma: export
@@ -90,6 +91,11 @@ struct OpaqueValue {
   requires(std::is_copy_constructible_v<T>)
       : ptr_(MakeOpaquePtr<T>(*other.ptr_)) {}
 
+  // Copies from non const variables must not use the constructors with arbitrary arguments.
+  OpaqueValue(OpaqueValue& other)
+  requires(std::is_copy_constructible_v<T>)
+      : OpaqueValue(std::as_const(other)) {}
+
   OpaqueValue& operator=(const OpaqueValue& other)
   requires(std::is_copy_constructible_v<T>)
   {
-- 
2.43.0


From 7ebc5e48a0c16008210277552dbf698ff1dab189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 081/106] fix: ConstructFromConversions checks that the fields
 can be made from the arguments

---
 mbo/types/internal/extender.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/mbo/types/internal/extender.h b/mbo/types/internal/extender.h
index ce0a25f..4930ac0 100644
--- a/mbo/types/internal/extender.h
+++ b/mbo/types/internal/extender.h
@@ -30,6 +30,21 @@
 #include "mbo/types/tuple_extras.h"
 
 namespace mbo::types {
+namespace types_internal {
+
+// The types of the values behind the tuple elements (that is without reference or `const`).
+template<typename Tuple>
+struct TupleValueTypesImpl;
+
+template<typename... Ts>
+struct TupleValueTypesImpl<std::tuple<Ts...>> {
+  using type = std::tuple<std::remove_cvref_t<Ts>...>;
+};
+
+template<typename Tuple>
+using TupleValueTypes = TupleValueTypesImpl<Tuple>::type;
+
+}  // namespace types_internal
 
 // Base Extender implementation for CRTP functionality injection.
 //
@@ -61,8 +76,8 @@ struct ExtendBase {
   // Effectively calling `T(FieldType<N>(args<N>)...)`.
   template<typename... Args>
   requires TupleFieldsConstructible<
-      std::tuple<Args...>,
-      decltype(std::declval<const ExtendBase<ActualType>&>().ToTuple())>
+      types_internal::TupleValueTypes<decltype(std::declval<const ExtendBase<ActualType>&>().ToTuple())>,
+      std::tuple<Args...>>
   static Type ConstructFromConversions(Args&&... args) {
     return ConstructFromConversionsImpl(
         std::make_index_sequence<sizeof...(Args)>{}, std::make_tuple(std::forward<Args>(args)...));
-- 
2.43.0


From ae775ccd91d6a65477b84cb61c323b393185ba0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 082/106] fix: Extended types can be compared with tuples when
 compiling with Clang

---
 mbo/types/extender.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mbo/types/extender.h b/mbo/types/extender.h
index d89ab84..e6ff07f 100644
--- a/mbo/types/extender.h
+++ b/mbo/types/extender.h
@@ -199,6 +199,7 @@ struct Comparable_ : ExtenderBase {  // NOLINT(readability-identifier-naming)
 
   // Define operator `<=>` on `const T&` and another type.
   template<typename Other, typename = decltype(StructToTuple(std::declval<const Other&>()))>
+  requires(!IsTuple<Other>)
   auto operator<=>(const Other& other) const {
     return this->ToTuple() <=> StructToTuple(other);
   }
@@ -209,6 +210,7 @@ struct Comparable_ : ExtenderBase {  // NOLINT(readability-identifier-naming)
   }
 
   template<typename Other, typename = decltype(StructToTuple(std::declval<const Other&>()))>
+  requires(!IsTuple<Other>)
   bool operator==(const Other& other) const {
     return this->ToTuple() == StructToTuple(other);
   }
@@ -219,6 +221,7 @@ struct Comparable_ : ExtenderBase {  // NOLINT(readability-identifier-naming)
   }
 
   template<typename Other, typename = decltype(StructToTuple(std::declval<const Other&>()))>
+  requires(!IsTuple<Other>)
   bool operator<(const Other& other) const {
     return this->ToTuple() < StructToTuple(other);
   }
-- 
2.43.0


From f9ad3edd777a74f5c06640b9ff1989a8c30596d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 083/106] fix: LogTiming logs once even if a moved-from value
 is moved again

---
 mbo/log/log_timing.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/log/log_timing.h b/mbo/log/log_timing.h
index 22295eb..3445aae 100644
--- a/mbo/log/log_timing.h
+++ b/mbo/log/log_timing.h
@@ -70,7 +70,7 @@ class LogTimingImpl final {
     Once(const Once&) = delete;
     Once& operator=(const Once&) = delete;
 
-    Once(Once&& other) noexcept { other.once_ = false; }
+    Once(Once&& other) noexcept : once_(std::exchange(other.once_, false)) {}
 
     Once& operator=(Once&&) = delete;
 
-- 
2.43.0


From 59af6386f9b70920066e52d8e8c1a685c8c6680a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:54 +0000
Subject: [PATCH 084/106] fix: LogTiming shows the names of operators and of
 templates with function pointers

---
 mbo/log/log_timing.cc | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/mbo/log/log_timing.cc b/mbo/log/log_timing.cc
index 11fc1b7..5571eb9 100644
--- a/mbo/log/log_timing.cc
+++ b/mbo/log/log_timing.cc
@@ -22,6 +22,8 @@
 #include "absl/base/log_severity.h"
 #include "absl/flags/flag.h"
 #include "absl/log/log.h"
+#include "absl/strings/ascii.h"
+#include "absl/strings/str_cat.h"
 #include "absl/strings/str_replace.h"
 #include "absl/time/clock.h"
 #include "absl/time/time.h"
@@ -113,6 +115,38 @@ std::string_view ReverseStripAngleBrackets(std::string_view str) {
   return str;
 }
 
+// Strip the description of template parameters: `[with T = int]` (GCC) or `[T = int]` (Clang).
+std::string_view StripTemplateParameters(std::string_view str) {
+  if (!str.ends_with(']')) {
+    return str;
+  }
+  std::size_t squares = 0;
+  for (std::string_view::size_type pos = str.length() - 1; pos != 0; --pos) {
+    if (str.at(pos) == ']') {
+      ++squares;
+    } else if (str.at(pos) == '[' && --squares == 0) {
+      return str.at(pos - 1) == ' ' ? str.substr(0, pos - 1) : str;
+    }
+  }
+  return str;
+}
+
+// Split off the name of an operator, which may contain spaces and unbalanced brackets.
+std::string_view RemoveOperatorName(std::string_view& str) {
+  static constexpr std::string_view kOperator = "operator";
+  const auto is_identifier = [](char chr) { return chr == '_' || absl::ascii_isalnum(static_cast<unsigned char>(chr)); };
+  const auto pos = str.rfind(kOperator);
+  if (pos == std::string_view::npos || (pos > 0 && is_identifier(str.at(pos - 1)))) {
+    return {};
+  }
+  const std::string_view result = str.substr(pos);
+  if (result.length() == kOperator.length() || is_identifier(result.at(kOperator.length()))) {
+    return {};
+  }
+  str.remove_suffix(result.length());
+  return result.starts_with("operator()") && result.ends_with('>') ? ReverseStripAngleBrackets(result) : result;
+}
+
 std::string ShortenLambdas(std::string_view function) {
   std::string result = absl::StrReplaceAll(
       function, {
@@ -125,6 +159,7 @@ std::string ShortenLambdas(std::string_view function) {
 }  // namespace
 
 std::string LogTimingImpl::StripFunctionName(std::string_view function) {
+  function = StripTemplateParameters(function);
   auto pos = function.rfind(')');
   if (pos == std::string_view::npos) {
     return std::string(function);
@@ -151,11 +186,15 @@ std::string LogTimingImpl::StripFunctionName(std::string_view function) {
   if (pos > 0) {
     function.remove_suffix(function.length() - pos);
   }
-  if (function.ends_with('>')) {
+  const std::string_view operator_name = RemoveOperatorName(function);
+  if (operator_name.empty() && function.ends_with('>')) {
     function = ReverseStripAngleBrackets(function);
   }
   function = ReverseFindSpaceSkipPastMatchingBrackets(function);
-  return ShortenLambdas(function);
+  while (function.starts_with('*') || function.starts_with('&')) {
+    function.remove_prefix(1);  // Part of the return type.
+  }
+  return ShortenLambdas(absl::StrCat(function, operator_name));
 }
 
 void LogTimingImpl::Log() const {
-- 
2.43.0


From 07c7b3db01973b646fef91f53cc68a3d4c0567a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:51 +0000
Subject: [PATCH 085/106] fix: LogTiming does not crash on functions whose
 names end in operator

---
 mbo/log/log_timing.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/mbo/log/log_timing.cc b/mbo/log/log_timing.cc
index 5571eb9..09a6db3 100644
--- a/mbo/log/log_timing.cc
+++ b/mbo/log/log_timing.cc
@@ -115,6 +115,10 @@ std::string_view ReverseStripAngleBrackets(std::string_view str) {
   return str;
 }
 
+bool IsIdentifier(char chr) {
+  return chr == '_' || absl::ascii_isalnum(static_cast<unsigned char>(chr));
+}
+
 // Strip the description of template parameters: `[with T = int]` (GCC) or `[T = int]` (Clang).
 std::string_view StripTemplateParameters(std::string_view str) {
   if (!str.ends_with(']')) {
@@ -134,13 +138,12 @@ std::string_view StripTemplateParameters(std::string_view str) {
 // Split off the name of an operator, which may contain spaces and unbalanced brackets.
 std::string_view RemoveOperatorName(std::string_view& str) {
   static constexpr std::string_view kOperator = "operator";
-  const auto is_identifier = [](char chr) { return chr == '_' || absl::ascii_isalnum(static_cast<unsigned char>(chr)); };
   const auto pos = str.rfind(kOperator);
-  if (pos == std::string_view::npos || (pos > 0 && is_identifier(str.at(pos - 1)))) {
+  if (pos == std::string_view::npos || (pos > 0 && IsIdentifier(str.at(pos - 1)))) {
     return {};
   }
   const std::string_view result = str.substr(pos);
-  if (result.length() == kOperator.length() || is_identifier(result.at(kOperator.length()))) {
+  if (result.length() == kOperator.length() || IsIdentifier(result.at(kOperator.length()))) {
     return {};
   }
   str.remove_suffix(result.length());
@@ -171,8 +174,14 @@ std::string LogTimingImpl::StripFunctionName(std::string_view function) {
       --level;
       if (level == 0) {
         static constexpr std::string_view kConversion = "operator()";
-        if (function.substr(0, pos + 2).ends_with(kConversion)) {
-          function.remove_suffix(function.length() - (pos + 2));
+        const std::string_view name = function.substr(0, pos + 2);
+        if (name.ends_with(kConversion)
+            && (name.length() == kConversion.length() || !IsIdentifier(name.at(pos + 1 - kConversion.length())))) {
+          function = name;
+          if (pos <= kConversion.length()) {
+            pos = 0;
+            break;
+          }
           pos -= kConversion.length();
           continue;
         }
-- 
2.43.0


From de69af2546b54152f9c9c0e3b36675b9ca16bf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 086/106] fix: align_markdown_tables: A trailing pipe after an
 escaped backslash ends the row

---
 tools/align_markdown_tables.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tools/align_markdown_tables.py b/tools/align_markdown_tables.py
index 19fe6e7..7dceec2 100755
--- a/tools/align_markdown_tables.py
+++ b/tools/align_markdown_tables.py
@@ -47,9 +47,11 @@ def _split_cells(row):
     s = row.strip()
     if s.startswith("|"):
         s = s[1:]
-    # A trailing pipe is a delimiter unless it is escaped (``\|``).
-    if s.endswith("|") and not s.endswith("\\|"):
-        s = s[:-1]
+    # A trailing pipe is a delimiter unless it is escaped (``\|``), by a backslash that is not itself escaped.
+    if s.endswith("|"):
+        before = s[:-1]
+        if (len(before) - len(before.rstrip("\\"))) % 2 == 0:
+            s = before
     cells = []
     cur = []
     i = 0
-- 
2.43.0


From a5d67c128f617e44a7c20833b20f2ae4d6817833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 087/106] fix: align_markdown_tables: Only real code fences
 open and close code blocks

---
 tools/align_markdown_tables.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tools/align_markdown_tables.py b/tools/align_markdown_tables.py
index 7dceec2..2a74a6d 100755
--- a/tools/align_markdown_tables.py
+++ b/tools/align_markdown_tables.py
@@ -38,7 +38,8 @@ import re
 import sys
 
 _DELIM_CELL = re.compile(r"^:?-+:?$")
-_FENCE = re.compile(r"^(\s*)(`{3,}|~{3,})")
+# An opening backtick fence cannot have backticks in its info string (that would be inline code).
+_FENCE = re.compile(r"^(\s*)(`{3,}(?=[^`]*$)|~{3,})")
 
 
 def _split_cells(row):
@@ -156,7 +157,12 @@ def align_text(text):
         fence_match = _FENCE.match(line)
         if fence is not None:
             out.append(line)
-            if fence_match and fence_match.group(2)[0] == fence[0] and len(fence_match.group(2)) >= len(fence):
+            if (
+                fence_match
+                and fence_match.group(2)[0] == fence[0]
+                and len(fence_match.group(2)) >= len(fence)
+                and not line[fence_match.end() :].strip()
+            ):
                 fence = None
             i += 1
             continue
-- 
2.43.0


From 4db5ebbc2755358acfca3a0c8f7941a0a81b7f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 088/106] fix: align_markdown_tables: Line endings are kept

---
 tools/align_markdown_tables.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/align_markdown_tables.py b/tools/align_markdown_tables.py
index 2a74a6d..8226905 100755
--- a/tools/align_markdown_tables.py
+++ b/tools/align_markdown_tables.py
@@ -138,11 +138,12 @@ def _format_table(rows):
 
     out = []
     for idx, cells in enumerate(parsed):
+        eol = "\r" if rows[idx].endswith("\r") else ""
         if idx == 1:
             body = " | ".join(render_delim(c) for c in range(ncols))
         else:
             body = " | ".join(render_cell(cells[c], c) for c in range(ncols))
-        out.append(f"{indent}| {body} |".rstrip())
+        out.append(f"{indent}| {body} |".rstrip() + eol)
     return out
 
 
@@ -197,7 +198,7 @@ def main(argv):
     changed = []
     for path in args.files:
         try:
-            with open(path, "r", encoding="utf-8") as handle:
+            with open(path, "r", encoding="utf-8", newline="") as handle:
                 original = handle.read()
         except OSError as err:
             print(f"align_markdown_tables: {path}: {err}", file=sys.stderr)
@@ -206,7 +207,7 @@ def main(argv):
         if aligned != original:
             changed.append(path)
             if not args.check:
-                with open(path, "w", encoding="utf-8") as handle:
+                with open(path, "w", encoding="utf-8", newline="") as handle:
                     handle.write(aligned)
     for path in changed:
         verb = "would reformat" if args.check else "reformatted"
-- 
2.43.0


From b1bcad7590f690ab3ec105ab3760590cdba4e185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 089/106] fix: align_markdown_tables: Files that are not UTF-8
 are errors

---
 tools/align_markdown_tables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/align_markdown_tables.py b/tools/align_markdown_tables.py
index 8226905..74bcd7e 100755
--- a/tools/align_markdown_tables.py
+++ b/tools/align_markdown_tables.py
@@ -200,7 +200,7 @@ def main(argv):
         try:
             with open(path, "r", encoding="utf-8", newline="") as handle:
                 original = handle.read()
-        except OSError as err:
+        except (OSError, UnicodeDecodeError) as err:
             print(f"align_markdown_tables: {path}: {err}", file=sys.stderr)
             return 2
         aligned = align_text(original)
-- 
2.43.0


From 050fa7dd69a24fe65c57359801d71eba8b883da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 090/106] fix: coverage: Changed lines that look like diff
 headers are counted for their file

---
 tools/coverage.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tools/coverage.py b/tools/coverage.py
index 27602ee..c23ee36 100644
--- a/tools/coverage.py
+++ b/tools/coverage.py
@@ -146,14 +146,17 @@ def changed_lines(base: str) -> dict[str, set[int]]:
     ).stdout
     changed: dict[str, set[int]] = defaultdict(set)
     path: str | None = None
+    added = 0  # Remaining lines of the current hunk, which may look like headers.
     for line in diff.splitlines():
-        if line.startswith("+++ b/"):
+        if added and line.startswith("+"):
+            added -= 1
+        elif line.startswith("+++ b/"):
             path = line[6:]
         elif path and line.startswith("@@"):
             match = re.search(r"\+(\d+)(?:,(\d+))?", line)
             if match:
-                start, length = int(match.group(1)), int(match.group(2) or 1)
-                changed[path].update(range(start, start + length))
+                start, added = int(match.group(1)), int(match.group(2) or 1)
+                changed[path].update(range(start, start + added))
     return changed
 
 
-- 
2.43.0


From 82716a86f155e7869973ffad03a7c62341251612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:59 +0000
Subject: [PATCH 091/106] Revert "fix: WhenTransformedBy owns its transformer
 and matcher"

This reverts commit a34c25e6d74f1540984a62b3e31a21dfbf619f6b.
---
 mbo/testing/matchers.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mbo/testing/matchers.h b/mbo/testing/matchers.h
index cf22fbf..bbfd0dc 100644
--- a/mbo/testing/matchers.h
+++ b/mbo/testing/matchers.h
@@ -348,12 +348,12 @@ class WhenTransformedByMatcher {
     }
 
    private:
-    const Transformer transformer_;
+    const Transformer& transformer_;
     const MatcherType container_matcher_;
   };
 
-  const Transformer transformer_;
-  const ContainerMatcher container_matcher_;
+  const Transformer& transformer_;
+  const ContainerMatcher& container_matcher_;
 };
 
 }  // namespace testing_internal
@@ -388,8 +388,7 @@ class WhenTransformedByMatcher {
 // standard container matchers work as expected.
 template<typename Transformer, typename ContainerMatcher>
 inline auto WhenTransformedBy(const Transformer& transformer, const ContainerMatcher& container_matcher) {
-  return testing_internal::WhenTransformedByMatcher<std::decay_t<Transformer>, ContainerMatcher>(
-      transformer, container_matcher);
+  return testing_internal::WhenTransformedByMatcher(transformer, container_matcher);
 }
 
 namespace testing_internal {
-- 
2.43.0


From a870b838a13520916747e50c8982d14fd0fd7a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 092/106] fix: diff_test: Attributes minimal,
 skip_left_deletions and width reach the diff tool

---
 mbo/diff/diff.bzl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mbo/diff/diff.bzl b/mbo/diff/diff.bzl
index 5c773cc..605a84a 100644
--- a/mbo/diff/diff.bzl
+++ b/mbo/diff/diff.bzl
@@ -160,9 +160,12 @@ if ! {diff_tool} "${{OLD}}" "${{NEW}}" \
     --ignore_matching_lines={ignore_matching_lines} \
     --ignore_trailing_space={ignore_trailing_space} \
     --ignore_missing_final_newline={ignore_missing_final_newline} \
+    --minimal={minimal} \
     --regex_replace_lhs={regex_replace_lhs} \
     --regex_replace_rhs={regex_replace_rhs} \
     --show_chunk_headers={show_chunk_headers} \
+    --skip_left_deletions={skip_left_deletions} \
+    {width} \
     --strip_comments={strip_comments} \
     --strip_file_header_prefix={strip_file_header_prefix} \
     --strip_parsed_comments={strip_parsed_comments} \
-- 
2.43.0


From 9365b94f29866c29b1d5fcba888ffc68ae94920e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 093/106] fix: diff_test: Manifest entries that merely contain
 a file's path are not taken for it

---
 mbo/diff/diff.bzl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbo/diff/diff.bzl b/mbo/diff/diff.bzl
index 605a84a..11afc93 100644
--- a/mbo/diff/diff.bzl
+++ b/mbo/diff/diff.bzl
@@ -138,8 +138,8 @@ if [[ -d "${{RUNFILES_DIR:-/dev/null}}" && "${{RUNFILES_MANIFEST_ONLY:-}}" != 1
   OLD="${{RUNFILES_DIR}}/${{OLD}}"
   NEW="${{RUNFILES_DIR}}/${{NEW}}"
 elif [[ -f "${{RUNFILES_MANIFEST_FILE:-/dev/null}}" ]]; then
-  OLD="$(grep -F -m1 "${{OLD}} " "${{RUNFILES_MANIFEST_FILE}}" | sed 's/^[^ ]* //')"
-  NEW="$(grep -F -m1 "${{NEW}} " "${{RUNFILES_MANIFEST_FILE}}" | sed 's/^[^ ]* //')"
+  OLD="$(ENTRY="${{OLD}} " awk 'index($0, ENVIRON["ENTRY"]) == 1 {{ print substr($0, length(ENVIRON["ENTRY"]) + 1); exit }}' "${{RUNFILES_MANIFEST_FILE}}")"
+  NEW="$(ENTRY="${{NEW}} " awk 'index($0, ENVIRON["ENTRY"]) == 1 {{ print substr($0, length(ENVIRON["ENTRY"]) + 1); exit }}' "${{RUNFILES_MANIFEST_FILE}}")"
 elif [[ -f "${{TEST_SRCDIR}}/${{OLD}}" && -f "${{TEST_SRCDIR}}/${{NEW}}" ]]; then
   OLD="${{TEST_SRCDIR}}/${{OLD}}"
   NEW="${{TEST_SRCDIR}}/${{NEW}}"
-- 
2.43.0


From cc2a2b8e575a8d3a6afbbe919a7691acf91f80f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:58 +0000
Subject: [PATCH 094/106] fix: diff_test: Packages whose names start with
 external are found

---
 mbo/diff/diff.bzl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbo/diff/diff.bzl b/mbo/diff/diff.bzl
index 11afc93..385d393 100644
--- a/mbo/diff/diff.bzl
+++ b/mbo/diff/diff.bzl
@@ -132,8 +132,8 @@ set -xeuo pipefail
 
 OLD="{file_old}"
 NEW="{file_new}"
-[[ "${{OLD}}" =~ ^external/* ]] && OLD="${{OLD#external/}}" || OLD="${{TEST_WORKSPACE}}/${{OLD}}"
-[[ "${{NEW}}" =~ ^external/* ]] && NEW="${{NEW#external/}}" || NEW="${{TEST_WORKSPACE}}/${{NEW}}"
+[[ "${{OLD}}" =~ ^external/ ]] && OLD="${{OLD#external/}}" || OLD="${{TEST_WORKSPACE}}/${{OLD}}"
+[[ "${{NEW}}" =~ ^external/ ]] && NEW="${{NEW#external/}}" || NEW="${{TEST_WORKSPACE}}/${{NEW}}"
 if [[ -d "${{RUNFILES_DIR:-/dev/null}}" && "${{RUNFILES_MANIFEST_ONLY:-}}" != 1 ]]; then
   OLD="${{RUNFILES_DIR}}/${{OLD}}"
   NEW="${{RUNFILES_DIR}}/${{NEW}}"
-- 
2.43.0


From 2ae6a9e073658e2dfc6f6dd978e74eac8f5cd18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:48 +0000
Subject: [PATCH 095/106] fix: diff_test: File names are not expanded by the
 shell

---
 mbo/diff/diff.bzl | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mbo/diff/diff.bzl b/mbo/diff/diff.bzl
index 385d393..613f837 100644
--- a/mbo/diff/diff.bzl
+++ b/mbo/diff/diff.bzl
@@ -130,8 +130,9 @@ def _diff_test_impl(ctx):
 
 set -xeuo pipefail
 
-OLD="{file_old}"
-NEW="{file_new}"
+OLD={file_old}
+NEW={file_new}
+FILES="\"${{OLD}}\" and \"${{NEW}}\""
 [[ "${{OLD}}" =~ ^external/ ]] && OLD="${{OLD#external/}}" || OLD="${{TEST_WORKSPACE}}/${{OLD}}"
 [[ "${{NEW}}" =~ ^external/ ]] && NEW="${{NEW#external/}}" || NEW="${{TEST_WORKSPACE}}/${{NEW}}"
 if [[ -d "${{RUNFILES_DIR:-/dev/null}}" && "${{RUNFILES_MANIFEST_ONLY:-}}" != 1 ]]; then
@@ -144,7 +145,7 @@ elif [[ -f "${{TEST_SRCDIR}}/${{OLD}}" && -f "${{TEST_SRCDIR}}/${{NEW}}" ]]; the
   OLD="${{TEST_SRCDIR}}/${{OLD}}"
   NEW="${{TEST_SRCDIR}}/${{NEW}}"
 else
-  echo >&2 "ERROR: could not find \"{file_old}\" and \"{file_new}\""
+  echo >&2 "ERROR: could not find ${{FILES}}"
   exit 1
 fi
 if ! {diff_tool} "${{OLD}}" "${{NEW}}" \
@@ -171,14 +172,14 @@ if ! {diff_tool} "${{OLD}}" "${{NEW}}" \
     --strip_parsed_comments={strip_parsed_comments} \
 ; then
   EXTRA_FAILURE_MESSAGE={failure_message}
-  echo >&2 "FAIL: files \"{file_old}\" and \"{file_new}\" differ.${{EXTRA_FAILURE_MESSAGE:+ }}${{EXTRA_FAILURE_MESSAGE}}"
+  echo >&2 "FAIL: files ${{FILES}} differ.${{EXTRA_FAILURE_MESSAGE:+ }}${{EXTRA_FAILURE_MESSAGE}}"
   exit 1
 fi
 """.format(
                 diff_tool = ctx.executable._diff_tool.short_path,
                 failure_message = shell.quote(ctx.attr.failure_message),
-                file_old = _runfiles_path(ctx.file.file_old),
-                file_new = _runfiles_path(ctx.file.file_new),
+                file_old = shell.quote(_runfiles_path(ctx.file.file_old)),
+                file_new = shell.quote(_runfiles_path(ctx.file.file_new)),
                 algorithm = shell.quote(ctx.attr.algorithm),
                 context = "" if ctx.attr.context == -1 else "--context=%d" % ctx.attr.context,
                 file_header_use = shell.quote(ctx.attr.file_header_use),
-- 
2.43.0


From a2e546019fa1ec52c1a3f5eb87e4740fcf319984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:12 +0000
Subject: [PATCH 096/106] fix: cache_cleanup: Creation times with and without
 fractional seconds are ordered by time

---
 tools/cache_cleanup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/cache_cleanup.py b/tools/cache_cleanup.py
index 1b76f63..4b5da84 100644
--- a/tools/cache_cleanup.py
+++ b/tools/cache_cleanup.py
@@ -14,7 +14,7 @@ from typing import Any
 def expired_cache_ids(caches: Iterable[dict[str, Any]], prefix: str) -> list[int]:
     """Return matching cache IDs except the newest one."""
     matching = [cache for cache in caches if cache["key"].startswith(prefix)]
-    matching.sort(key=lambda cache: cache["createdAt"])
+    matching.sort(key=lambda cache: cache["createdAt"].rstrip("Z"))
     return [cache["id"] for cache in matching[:-1]]
 
 
-- 
2.43.0


From 8876aa0bc7d2e86cbd76c89a236966abd57b246f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 097/106] fix: digest: --check fails for a list without any
 properly formatted line

---
 mbo/digest/digest_main.cc | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/mbo/digest/digest_main.cc b/mbo/digest/digest_main.cc
index 4418775..d7a5c99 100644
--- a/mbo/digest/digest_main.cc
+++ b/mbo/digest/digest_main.cc
@@ -198,11 +198,13 @@ struct CheckStats {
   std::size_t malformed = 0;
 };
 
-// Verifies all lines of one checksum stream (see the --check flag).
-void CheckStream(const NamedAlgorithm& algorithm, std::istream& sums, CheckStats& stats) {
+// Verifies all lines of one checksum stream (see the --check flag). Returns
+// whether the stream had at least one properly formatted line.
+bool CheckStream(const NamedAlgorithm& algorithm, std::istream& sums, CheckStats& stats) {
   const bool quiet = absl::GetFlag(FLAGS_quiet) || absl::GetFlag(FLAGS_status);
   const bool silent = absl::GetFlag(FLAGS_status);
   const bool ignore_missing = absl::GetFlag(FLAGS_ignore_missing);
+  bool formatted = false;
   std::string line;
   while (std::getline(sums, line)) {
     if (line.empty()) {
@@ -213,6 +215,7 @@ void CheckStream(const NamedAlgorithm& algorithm, std::istream& sums, CheckStats
       ++stats.malformed;
       continue;
     }
+    formatted = true;
     const auto [hex, file_name] = *parsed;
     std::ifstream input{fs::path(file_name), std::ios::binary};
     const std::optional<std::string> computed = input ? algorithm.func(input) : std::nullopt;
@@ -237,14 +240,26 @@ void CheckStream(const NamedAlgorithm& algorithm, std::istream& sums, CheckStats
       }
     }
   }
+  return formatted;
 }
 
 // Verifies all checksum files ('-' = stdin); returns the process exit code.
 int RunCheck(const NamedAlgorithm& algorithm, const std::vector<std::string_view>& files) {
+  const bool silent = absl::GetFlag(FLAGS_status);
   CheckStats stats;
+  bool unformatted = false;
+  auto check_formatted = [&](bool formatted, std::string_view file_name) {
+    if (formatted) {
+      return;
+    }
+    unformatted = true;
+    if (!silent) {
+      std::cerr << file_name << ": No properly formatted checksum lines found.\n";
+    }
+  };
   for (const std::string_view file_name : files) {
     if (file_name == "-") {
-      CheckStream(algorithm, std::cin, stats);
+      check_formatted(CheckStream(algorithm, std::cin, stats), file_name);
       continue;
     }
     std::ifstream sums{fs::path(file_name), std::ios::binary};
@@ -252,13 +267,13 @@ int RunCheck(const NamedAlgorithm& algorithm, const std::vector<std::string_view
       std::cerr << file_name << ": Cannot read checksum file.\n";
       return 1;
     }
-    CheckStream(algorithm, sums, stats);
+    const bool formatted = CheckStream(algorithm, sums, stats);
     if (sums.bad()) {
       std::cerr << file_name << ": Cannot read checksum file.\n";
       return 1;
     }
+    check_formatted(formatted, file_name);
   }
-  const bool silent = absl::GetFlag(FLAGS_status);
   auto warn = [&](std::size_t count, std::string_view what) {
     if (count > 0 && !silent) {
       std::cerr << "digest: WARNING: " << count << " " << what << "\n";
@@ -274,7 +289,7 @@ int RunCheck(const NamedAlgorithm& algorithm, const std::vector<std::string_view
     return 1;
   }
   const bool strict_failure = absl::GetFlag(FLAGS_strict) && stats.malformed > 0;
-  return (stats.mismatched > 0 || stats.unreadable > 0 || strict_failure) ? 1 : 0;
+  return (stats.mismatched > 0 || stats.unreadable > 0 || unformatted || strict_failure) ? 1 : 0;
 }
 
 // Digests all `files` ('-' = stdin); returns the process exit code. Errors
-- 
2.43.0


From 80f94a9306d75b4803b8e5a9b189f7c04ebf7a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:49 +0000
Subject: [PATCH 098/106] fix: verify_digest_test: Names of saved digests are
 not expanded by the shell

---
 mbo/digest/digest.bzl | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mbo/digest/digest.bzl b/mbo/digest/digest.bzl
index 96bb08b..68557a8 100644
--- a/mbo/digest/digest.bzl
+++ b/mbo/digest/digest.bzl
@@ -52,6 +52,9 @@ def verify_digest_test(name, *, algorithm = "sha256", digests = {}, checksums =
         **kwargs
     )
 
+def _shell_quote(arg):
+    return "'" + arg.replace("'", "'\\''") + "'"
+
 def _verify_digest_test_impl(ctx):
     # The sidecars embed workspace-relative paths, so `--check` must run from the
     # workspace runfiles root - exactly where Bazel starts a test - and resolve
@@ -73,9 +76,9 @@ def _verify_digest_test_impl(ctx):
         fail("verify_digest_test needs at least one file to check.")
 
     checks = "\n".join([
-        '"${{DIGEST}}" --algorithm={algorithm} --check "{sidecar}" || sidecar="{sidecar}"'.format(
+        '"${{DIGEST}}" --algorithm={algorithm} --check {sidecar} || sidecar={sidecar}'.format(
             algorithm = ctx.attr.algorithm,
-            sidecar = sidecar,
+            sidecar = _shell_quote(sidecar),
         )
         for sidecar in check_paths
     ])
@@ -94,7 +97,7 @@ sidecar=""
 {checks}
 if [[ -n "${{sidecar}}" ]]; then
   rc=1
-  input="$(head -n 1 ${{sidecar}} | cut -d' ' -f3-)"
+  input="$(head -n 1 "${{sidecar}}" | cut -d' ' -f3-)"
   echo >&2 "FAIL: a file no longer matches its committed {algorithm} digest; to regenerate the saved digest(s):"
   echo >&2 "  bazel run //mbo/digest -- -a {algorithm} --cwd=\"\${{PWD}}\" '${{input}}'"
 fi
-- 
2.43.0


From b2aea62d6bb4c51f44d00be010ff1610c32e5b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:51 +0000
Subject: [PATCH 099/106] fix: trigger_release: Only the tag of the very
 version counts as already in use

---
 tools/trigger_release.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/trigger_release.sh b/tools/trigger_release.sh
index 6509f0d..573c113 100755
--- a/tools/trigger_release.sh
+++ b/tools/trigger_release.sh
@@ -71,7 +71,7 @@ if [[ -z "${NEXT_VERSION}" ]]; then
   die "Could not determine next version from input (${VERSION})."
 fi
 
-grep "${VERSION}" < <(git tag -l) && die "Version tag is already in use."
+grep -Fx "${VERSION}" < <(git tag -l) && die "Version tag is already in use."
 
 # Pre-flight: release_prep.sh applies .github/workflows/bazelmod.patch to the
 # worktree before archiving (it shapes the released MODULE.bazel/mope.bzl). If it
-- 
2.43.0


From 40b8674cdd7f873c78d49eba0124406db71e483b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:25 +0000
Subject: [PATCH 100/106] fix: release_prep: Backups that patch makes of
 drifted files stay out of the archive

---
 .github/workflows/release_prep.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/.github/workflows/release_prep.sh b/.github/workflows/release_prep.sh
index 9e37a6a..e1f8edc 100755
--- a/.github/workflows/release_prep.sh
+++ b/.github/workflows/release_prep.sh
@@ -60,7 +60,7 @@ fi
 
 # Apply patches
 for patch in ${PATCHES[@]+"${PATCHES[@]}"}; do
-  patch -s -p 1 <"${patch}"
+  patch -s -p 1 --no-backup-if-mismatch <"${patch}"
 done
 
 # Exclude some dev stuff from the archive.
-- 
2.43.0


From f73c4d7b33f3e7e2a6bfe5cf3bf3eb9393a324fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:58 +0000
Subject: [PATCH 101/106] fix: MakeLimitedVector: Named arguments are copied
 and not moved from

---
 mbo/container/limited_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index d460876..5937231 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -616,7 +616,7 @@ requires((types::NotInitializerList<Args> && !std::forward_iterator<Args> && !ty
 inline constexpr auto MakeLimitedVector(Args&&... args) noexcept {
   using T = std::common_type_t<Args...>;
   auto result = LimitedVector<T, sizeof...(Args)>();
-  (result.emplace_back(std::forward<T>(args)), ...);
+  (result.emplace_back(std::forward<Args>(args)), ...);
   return result;
 }
 
-- 
2.43.0


From 74e6b96ab19445949722d466e02c8b9b08e938e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:58 +0000
Subject: [PATCH 102/106] fix: MakeLimitedSet: Named arguments are copied and
 not moved from

---
 mbo/container/limited_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/container/limited_set.h b/mbo/container/limited_set.h
index 3f48364..4934284 100644
--- a/mbo/container/limited_set.h
+++ b/mbo/container/limited_set.h
@@ -266,7 +266,7 @@ requires((types::NotInitializerList<Args> && !std::forward_iterator<Args> && !ty
 inline constexpr auto MakeLimitedSet(Args&&... args) noexcept {
   using T = std::common_type_t<Args...>;
   auto result = LimitedSet<T, sizeof...(Args)>();
-  (result.emplace(std::forward<T>(args)), ...);
+  (result.emplace(std::forward<Args>(args)), ...);
   return result;
 }
 
-- 
2.43.0


From 4a26a70ee91586dce70dd8a86bcc9ee114c1235d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:44 +0000
Subject: [PATCH 103/106] fix: Stringify: Field numbers do not depend on the
 format flags of the stream

---
 mbo/types/stringify.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index d9306d4..c924547 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -1180,7 +1180,8 @@ class Stringify {
       }
       os << key_control.key_suffix << format.key_value_separator;
     } else if (key_control.key_mode == StringifyOptions::KeyMode::kNumericFallback) {
-      os << key_control.key_prefix << field.idx << key_control.key_suffix << format.key_value_separator;
+      os << key_control.key_prefix << absl::StreamFormat("%v", field.idx) << key_control.key_suffix
+         << format.key_value_separator;
     }
   }
 
-- 
2.43.0


From 075e10bb3fb3da8632721de8e3228b19d8584744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:39 +0000
Subject: [PATCH 104/106] fix: RefWrap: Comparisons are those of the values,
 also of unordered ones and of other types

---
 mbo/types/ref_wrap.h | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/mbo/types/ref_wrap.h b/mbo/types/ref_wrap.h
index 5858476..9f5706f 100644
--- a/mbo/types/ref_wrap.h
+++ b/mbo/types/ref_wrap.h
@@ -84,18 +84,12 @@ class RefWrap final {
 
   template<std::three_way_comparable_with<T> U>
   constexpr auto operator<=>(const RefWrap<U>& other) const noexcept {
-    if (ptr_ == other.ptr_) {
-      return decltype(*ptr_ <=> other)::equivalent;
-    }
-    return *ptr_ <=> *other.ptr_;
+    return *ptr_ <=> other.get();
   }
 
   template<typename U>
   requires(!std::same_as<U, RefWrap> && std::three_way_comparable_with<U, T>)
   constexpr auto operator<=>(const U& other) const noexcept {
-    if (ptr_ == &other) {
-      return decltype(*ptr_ <=> other)::equivalent;
-    }
     return *ptr_ <=> other;
   }
 
-- 
2.43.0


From ad2948e806d737ba648282a4992347f1d9a41d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:37 +0000
Subject: [PATCH 105/106] fix: OptionalRef, OptionalDataOrRef: Compare values
 whose orders are of different kinds

---
 mbo/types/optional_data_or_ref.h | 2 +-
 mbo/types/optional_ref.h         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbo/types/optional_data_or_ref.h b/mbo/types/optional_data_or_ref.h
index 7c58205..e76bffb 100644
--- a/mbo/types/optional_data_or_ref.h
+++ b/mbo/types/optional_data_or_ref.h
@@ -258,7 +258,7 @@ class OptionalDataOrRef {
 
   template<std::three_way_comparable_with<T> U = T, typename RefU = U>
   constexpr auto operator<=>(const OptionalDataOrRef<U, RefU>& rhs) const {
-    using Result = decltype(std::declval<T>() <=> std::declval<T>());
+    using Result = decltype(std::declval<T>() <=> std::declval<U>());
     if (Result result = has_value() <=> rhs.has_value(); result != 0) {
       return result;
     }
diff --git a/mbo/types/optional_ref.h b/mbo/types/optional_ref.h
index f220da1..437480e 100644
--- a/mbo/types/optional_ref.h
+++ b/mbo/types/optional_ref.h
@@ -122,7 +122,7 @@ class OptionalRef {
 
   template<std::three_way_comparable_with<T> U = T>
   constexpr auto operator<=>(const OptionalRef<U>& rhs) const {
-    using Result = decltype(std::declval<T>() <=> std::declval<T>());
+    using Result = decltype(std::declval<T>() <=> std::declval<U>());
     if (Result result = has_value() <=> rhs.has_value(); result != 0) {
       return result;
     }
-- 
2.43.0


From 3c87b920784e44fc4f5657248811b5bc17885576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:57 +0000
Subject: [PATCH 106/106] fix: LimitedVector, LimitedSet, LimitedMap: Order
 values that are not strongly ordered

---
 mbo/container/limited_map.h    | 7 ++++---
 mbo/container/limited_set.h    | 2 +-
 mbo/container/limited_vector.h | 4 +++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/mbo/container/limited_map.h b/mbo/container/limited_map.h
index c5b895b..97b057f 100644
--- a/mbo/container/limited_map.h
+++ b/mbo/container/limited_map.h
@@ -250,9 +250,10 @@ template<
     typename LKComp,
     typename RKComp>
 requires(std::three_way_comparable_with<LHS_K, RHS_K> && std::three_way_comparable_with<LHS_V, RHS_V>)
-constexpr inline auto operator<=>(
-    const LimitedMap<LHS_K, LHS_V, LN, LKComp>& lhs,
-    const LimitedMap<RHS_K, RHS_V, RN, RKComp>& rhs) noexcept {
+constexpr inline std::common_comparison_category_t<
+    std::compare_three_way_result_t<LHS_K, RHS_K>,
+    std::compare_three_way_result_t<LHS_V, RHS_V>>
+operator<=>(const LimitedMap<LHS_K, LHS_V, LN, LKComp>& lhs, const LimitedMap<RHS_K, RHS_V, RN, RKComp>& rhs) noexcept {
   auto lhs_it = lhs.begin();
   auto rhs_it = rhs.begin();
   while (lhs_it != lhs.end() && rhs_it != rhs.end()) {
diff --git a/mbo/container/limited_set.h b/mbo/container/limited_set.h
index 4934284..c7f0a1e 100644
--- a/mbo/container/limited_set.h
+++ b/mbo/container/limited_set.h
@@ -183,7 +183,7 @@ LimitedSet(T&&... data) -> LimitedSet<std::string_view, sizeof...(T)>;
 
 template<auto LN, auto RN, typename LHS, typename RHS, typename LCompare, typename RCompare>
 requires std::three_way_comparable_with<LHS, RHS>
-constexpr inline auto operator<=>(
+constexpr inline std::compare_three_way_result_t<LHS, RHS> operator<=>(
     const LimitedSet<LHS, LN, LCompare>& lhs,
     const LimitedSet<RHS, RN, RCompare>& rhs) noexcept {
   auto lhs_it = lhs.begin();
diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index 5937231..a5e6cfa 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -544,7 +544,9 @@ LimitedVector(T&&... v) -> LimitedVector<std::common_type_t<T...>, sizeof...(T)>
 // and going through the checked operator[] would re-verify that per element.
 template<auto LN, auto RN, typename LHS, typename RHS>
 requires std::three_way_comparable_with<LHS, RHS>
-constexpr inline auto operator<=>(const LimitedVector<LHS, LN>& lhs, const LimitedVector<RHS, RN>& rhs) noexcept {
+constexpr inline std::compare_three_way_result_t<LHS, RHS> operator<=>(
+    const LimitedVector<LHS, LN>& lhs,
+    const LimitedVector<RHS, RN>& rhs) noexcept {
   const std::size_t minsize = std::min(lhs.size(), rhs.size());
   for (std::size_t index = 0; index < minsize; ++index) {
     const auto comp = lhs[index] <=> rhs[index];
-- 
2.43.0

