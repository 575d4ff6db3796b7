From f7048d49fef0d267e41628c914ef3e0008286db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:51 +0000
Subject: [PATCH 01/39] fix: base64 decoder indexes its table out of bounds for
 negative chars

---
 include/fitoria/encoding/base64/decoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/encoding/base64/decoder.hpp b/include/fitoria/encoding/base64/decoder.hpp
index 3515df2..69b079f 100644
--- a/include/fitoria/encoding/base64/decoder.hpp
+++ b/include/fitoria/encoding/base64/decoder.hpp
@@ -150,7 +150,7 @@ private:
   template <typename Byte>
   static std::size_t s(Byte byte) noexcept
   {
-    return static_cast<std::size_t>(byte);
+    return static_cast<std::uint8_t>(byte);
   }
 
   state state_ = state::s0;
-- 
2.43.0


From 6daaaf0ce99664a58ec8380dfb42e1a74a2d95d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:51 +0000
Subject: [PATCH 02/39] fix: base64 decoder accepts a quantum with truncated
 padding

---
 include/fitoria/encoding/base64/decoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/encoding/base64/decoder.hpp b/include/fitoria/encoding/base64/decoder.hpp
index 69b079f..972cc04 100644
--- a/include/fitoria/encoding/base64/decoder.hpp
+++ b/include/fitoria/encoding/base64/decoder.hpp
@@ -40,7 +40,7 @@ public:
 
   bool is_done() const noexcept
   {
-    return !is_error() && state_ != state::s1;
+    return !is_error() && state_ != state::s1 && state_ != state::end1;
   }
 
   template <typename InputIt, typename OutputIt>
-- 
2.43.0


From 6c53bd1a8a68cc14225cac018997446f85ed8e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:00 +0000
Subject: [PATCH 03/39] fix: path_parser rejects a name that equals a static
 text of the path

---
 include/fitoria/web/path_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/web/path_parser.hpp b/include/fitoria/web/path_parser.hpp
index 63a009c..3177f3a 100644
--- a/include/fitoria/web/path_parser.hpp
+++ b/include/fitoria/web/path_parser.hpp
@@ -138,7 +138,7 @@ private:
                                             std::string value)
   {
     for (auto& token : tokens_) {
-      if (value == token.value) {
+      if (token.kind != path_token_kind::static_ && value == token.value) {
         return false;
       }
     }
-- 
2.43.0


From b59c2a3cdd4dce4ad5e37216257726f7df3d161d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:29 +0000
Subject: [PATCH 04/39] fix: router loses routes when a new prefix is inserted
 above several siblings

---
 include/fitoria/web/router.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/fitoria/web/router.hpp b/include/fitoria/web/router.hpp
index b4b5bb4..827220c 100644
--- a/include/fitoria/web/router.hpp
+++ b/include/fitoria/web/router.hpp
@@ -75,18 +75,21 @@ public:
         }
       }
 
-      for (std::size_t i = 0; i < statics_.size(); ++i) {
-        if (statics_[i].prefix_.starts_with(token)) {
-          auto n = node(token);
-          statics_[i].prefix_.erase(0, token.size());
-          n.statics_.push_back(std::move(statics_[i]));
-          std::swap(n, statics_[i]);
-          return statics_[i].try_insert(std::move(route), token_index + 1);
+      // every sibling that continues the token has to be moved below it,
+      // otherwise it can no longer be reached
+      auto n = node(token);
+      for (auto it = statics_.begin(); it != statics_.end();) {
+        if (it->prefix_.starts_with(token)) {
+          it->prefix_.erase(0, token.size());
+          n.statics_.push_back(std::move(*it));
+          it = statics_.erase(it);
+        } else {
+          ++it;
         }
       }
 
-      return statics_.emplace_back(token).try_insert(std::move(route),
-                                                     token_index + 1);
+      return statics_.emplace_back(std::move(n))
+          .try_insert(std::move(route), token_index + 1);
     }
 
     auto try_insert_param(route_type route,
-- 
2.43.0


From 4aa62640c342166d2ad4d4fad83c33c5e32ef31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:29 +0000
Subject: [PATCH 05/39] fix: router matches a param with an empty segment that
 path_matcher refuses

---
 include/fitoria/web/router.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/web/router.hpp b/include/fitoria/web/router.hpp
index 827220c..ab307be 100644
--- a/include/fitoria/web/router.hpp
+++ b/include/fitoria/web/router.hpp
@@ -150,10 +150,14 @@ public:
         -> expected<const route_type&, std::error_code>
     {
       if (params_) {
-        if (auto pos = path.find('/'); pos != std::string_view::npos) {
+        auto pos = path.find('/');
+        if (pos == std::string_view::npos) {
+          return params_->try_find(method, std::string_view());
+        }
+        // a param never matches an empty segment, see path_matcher
+        if (pos != 0) {
           return params_->try_find(method, path.substr(pos));
         }
-        return params_->try_find(method, std::string_view());
       }
 
       return unexpected { make_error_code(error::route_not_exists) };
-- 
2.43.0


From 58ecce5354c1cc2c87efdca27191f456dc33d748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:48 +0000
Subject: [PATCH 06/39] fix: path_matcher interprets the static text and names
 of a pattern as a regex

---
 include/fitoria/web/path_matcher.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/fitoria/web/path_matcher.hpp b/include/fitoria/web/path_matcher.hpp
index 72b0409..fdcff3e 100644
--- a/include/fitoria/web/path_matcher.hpp
+++ b/include/fitoria/web/path_matcher.hpp
@@ -59,10 +59,11 @@ public:
   {
     if (boost::smatch match; boost::regex_match(input, match, regex_)) {
       std::vector<std::pair<std::string, std::string>> matches;
-      for (auto token : tokens_) {
+      int group = 0;
+      for (auto& token : tokens_) {
         if (token.kind == path_token_kind::param
             || token.kind == path_token_kind::wildcard) {
-          matches.emplace_back(token.value, match[token.value].str());
+          matches.emplace_back(token.value, match[++group].str());
         }
       }
 
@@ -78,17 +79,16 @@ private:
     std::string regex;
     for (auto& token : tokens) {
       if (token.kind == path_token_kind::static_) {
+        // static text never contains a backslash, it is matched literally
+        regex += "\\Q";
         regex += token.value;
+        regex += "\\E";
       } else if (token.kind == path_token_kind::param) {
-        // {name} => (?<name>pattern)
-        regex += "(?<";
-        regex += token.value;
-        regex += ">[^{}/]+)";
+        // the name is not restricted to the characters of a regex group name,
+        // so params are captured by position
+        regex += "([^/]+)";
       } else if (token.kind == path_token_kind::wildcard) {
-        // {name} => (?<name>pattern)
-        regex += "(?<";
-        regex += token.value;
-        regex += ">.*)";
+        regex += "(.*)";
       }
     }
 
-- 
2.43.0


From db833ddee3e9bb565e41634235b5c4b3d0485d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:21 +0000
Subject: [PATCH 07/39] fix: use_state changes the scope or route it is called
 on

---
 include/fitoria/web/scope.hpp         | 7 ++++---
 include/fitoria/web/state_storage.hpp | 3 +++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/fitoria/web/scope.hpp b/include/fitoria/web/scope.hpp
index 1ff3a32..b36f2d3 100644
--- a/include/fitoria/web/scope.hpp
+++ b/include/fitoria/web/scope.hpp
@@ -51,12 +51,13 @@ public:
     using state_type = std::decay_t<State>;
     static_assert(std::copy_constructible<state_type>);
 
-    auto state_map = state_map_;
-    (*state_map)[std::type_index(typeid(state_type))]
+    // the map is shared with the scope this one is made from and its routes
+    auto new_state_map = std::make_shared<state_map>(*state_map_);
+    (*new_state_map)[std::type_index(typeid(state_type))]
         = std::any(std::forward<State>(state));
 
     return scope_impl<Path, std::tuple<Middlewares...>, std::tuple<Routes...>>(
-        std::move(state_map), middlewares_, routes_);
+        std::move(new_state_map), middlewares_, routes_);
   }
 
   template <typename Middleware>
diff --git a/include/fitoria/web/state_storage.hpp b/include/fitoria/web/state_storage.hpp
index 56dbb80..171ebca 100644
--- a/include/fitoria/web/state_storage.hpp
+++ b/include/fitoria/web/state_storage.hpp
@@ -52,6 +52,9 @@ public:
     auto copy = *this;
     if (copy.maps_.empty()) {
       copy.maps_.push_back(std::make_shared<state_map>());
+    } else {
+      // the map is shared with the storage this one is made from
+      copy.maps_.front() = std::make_shared<state_map>(*copy.maps_.front());
     }
     (*copy.maps_.front())[ti] = std::move(obj);
 
-- 
2.43.0


From 5ff3524eed74dfdef528e0d0133d70f9d18492b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:19 +0000
Subject: [PATCH 08/39] fix: expected<T&, E> does not construct the error when
 assigned from unexpected

---
 include/fitoria/core/expected.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fitoria/core/expected.hpp b/include/fitoria/core/expected.hpp
index 9ed1d42..5a987e3 100644
--- a/include/fitoria/core/expected.hpp
+++ b/include/fitoria/core/expected.hpp
@@ -1856,6 +1856,7 @@ public:
              && std::is_assignable_v<E&, const G&>)
   {
     if (has_value()) {
+      std::construct_at(std::addressof(this->err_), other.error());
       this->has_ = false;
     } else {
       this->err_ = other.error();
@@ -1869,6 +1870,7 @@ public:
     requires(std::is_constructible_v<E, G> && std::is_assignable_v<E&, G>)
   {
     if (has_value()) {
+      std::construct_at(std::addressof(this->err_), std::move(other.error()));
       this->has_ = false;
     } else {
       this->err_ = std::move(other.error());
-- 
2.43.0


From b0d95865955b474ec445c8673b1aaae9094aac98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:19 +0000
Subject: [PATCH 09/39] fix: optional<T&> keeps its reference when assigned
 from an empty optional<U&>

---
 include/fitoria/core/optional.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fitoria/core/optional.hpp b/include/fitoria/core/optional.hpp
index c8e9db1..cd3b97d 100644
--- a/include/fitoria/core/optional.hpp
+++ b/include/fitoria/core/optional.hpp
@@ -773,6 +773,8 @@ public:
 
     if (other) {
       this->valptr_ = std::addressof(*other);
+    } else {
+      this->valptr_ = nullptr;
     }
 
     return *this;
-- 
2.43.0


From ec17cee5423104482f3e2d117e83676411ae2dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:19 +0000
Subject: [PATCH 10/39] fix: optional three-way comparison dereferences empty
 optionals

---
 include/fitoria/core/optional.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/core/optional.hpp b/include/fitoria/core/optional.hpp
index cd3b97d..1786908 100644
--- a/include/fitoria/core/optional.hpp
+++ b/include/fitoria/core/optional.hpp
@@ -1016,7 +1016,11 @@ template <typename T, std::three_way_comparable_with<T> U>
 constexpr std::compare_three_way_result_t<T, U>
 operator<=>(const optional<T>& lhs, const optional<U>& rhs)
 {
-  return *lhs <=> *rhs;
+  if (lhs && rhs) {
+    return *lhs <=> *rhs;
+  }
+
+  return lhs.has_value() <=> rhs.has_value();
 }
 
 template <typename T>
-- 
2.43.0


From a34e046f705ff239ed42108479b7239c082bd28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:59 +0000
Subject: [PATCH 11/39] fix: dynamic_buffer::prepare returns space outside the
 container after compaction

---
 include/fitoria/core/dynamic_buffer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fitoria/core/dynamic_buffer.hpp b/include/fitoria/core/dynamic_buffer.hpp
index 0e98691..100a535 100644
--- a/include/fitoria/core/dynamic_buffer.hpp
+++ b/include/fitoria/core/dynamic_buffer.hpp
@@ -132,6 +132,7 @@ public:
       container_.resize(woffset_ + n);
     } else if (n <= (limit_ - size())) {
       compress();
+      container_.resize(woffset_ + n);
     } else {
       FITORIA_THROW_OR(std::length_error("dynamic_buffer too large"),
                        std::terminate());
-- 
2.43.0


From ffef04ca80af2ab89f7477d480c8d09f8981acde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:59 +0000
Subject: [PATCH 12/39] fix: dynamic_buffer offsets wrap around when n is close
 to the maximum

---
 include/fitoria/core/dynamic_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/core/dynamic_buffer.hpp b/include/fitoria/core/dynamic_buffer.hpp
index 100a535..6294e40 100644
--- a/include/fitoria/core/dynamic_buffer.hpp
+++ b/include/fitoria/core/dynamic_buffer.hpp
@@ -114,7 +114,7 @@ public:
   /// @endverbatim
   void consume(std::size_t n)
   {
-    roffset_ = std::min(roffset_ + n, woffset_);
+    roffset_ += std::min(n, size());
     if (roffset_ == woffset_) {
       roffset_ = 0;
       woffset_ = 0;
@@ -148,7 +148,7 @@ public:
   /// @endverbatim
   void commit(std::size_t n)
   {
-    woffset_ = std::min(woffset_ + n, container_.size());
+    woffset_ += std::min(n, container_.size() - woffset_);
   }
 
   /// @verbatim embed:rst:leading-slashes
-- 
2.43.0


From c01d386a8bab22c3fd2f5ea84c809a5eddc35aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:12 +0000
Subject: [PATCH 13/39] fix: dynamic_buffer keeps its offsets after releasing
 the container

---
 include/fitoria/core/dynamic_buffer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/core/dynamic_buffer.hpp b/include/fitoria/core/dynamic_buffer.hpp
index 6294e40..dc9d34b 100644
--- a/include/fitoria/core/dynamic_buffer.hpp
+++ b/include/fitoria/core/dynamic_buffer.hpp
@@ -14,6 +14,7 @@
 #include <fitoria/core/net.hpp>
 
 #include <iterator>
+#include <utility>
 
 FITORIA_NAMESPACE_BEGIN
 
@@ -194,7 +195,8 @@ public:
   {
     compress();
     container_.resize(size());
-    return std::move(container_);
+    woffset_ = 0;
+    return std::exchange(container_, Container());
   }
 
 private:
-- 
2.43.0


From d232b2509710a0721303c35435a7b9c0b51fd974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:32 +0000
Subject: [PATCH 14/39] fix: range::parse wraps around for a start or suffix
 beyond the total length

---
 include/fitoria/http/header/range.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/fitoria/http/header/range.hpp b/include/fitoria/http/header/range.hpp
index a981173..d218bb0 100644
--- a/include/fitoria/http/header/range.hpp
+++ b/include/fitoria/http/header/range.hpp
@@ -15,6 +15,9 @@
 #include <fitoria/core/optional.hpp>
 #include <fitoria/core/strings.hpp>
 
+#include <algorithm>
+#include <cstdint>
+#include <limits>
 #include <string>
 #include <string_view>
 #include <vector>
@@ -164,9 +167,11 @@ public:
     }
 
     if (unit[1].starts_with("-")) {
-      if (auto suffix = from_string<std::uint64_t>(unit[1].substr(1)); suffix) {
+      if (auto suffix = from_string<std::uint64_t>(unit[1].substr(1));
+          suffix && *suffix > 0 && total_length > 0) {
+        const auto length = std::min(*suffix, total_length);
         return range(std::string(unit[0]),
-                     { { total_length - *suffix, *suffix } });
+                     { { total_length - length, length } });
       }
     } else {
       if (auto subranges = parse_subranges(unit[1], total_length); subranges) {
@@ -189,12 +194,13 @@ private:
     for (auto& token : tokens) {
       if (auto subrange = split_of(token, "-"); subrange.size() == 2) {
         auto start = from_string<std::uint64_t>(subrange[0]);
-        if (subrange[1].empty() && start) {
+        if (subrange[1].empty() && start && *start < total_length) {
           subranges.push_back(subrange_t { *start, total_length - *start });
           continue;
         }
         auto end = from_string<std::uint64_t>(subrange[1]);
-        if (start && end && *start <= *end) {
+        if (start && end && *start <= *end
+            && *end - *start < std::numeric_limits<std::uint64_t>::max()) {
           subranges.push_back(subrange_t { *start, *end - *start + 1 });
           continue;
         }
-- 
2.43.0


From 38bc7e75bda4b7a14668c2e73e8212812f66a557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:32 +0000
Subject: [PATCH 15/39] fix: entity_tag rejects obs-text and accepts DEL

---
 include/fitoria/http/header/entity_tag.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/http/header/entity_tag.hpp b/include/fitoria/http/header/entity_tag.hpp
index 40a470a..6b51450 100644
--- a/include/fitoria/http/header/entity_tag.hpp
+++ b/include/fitoria/http/header/entity_tag.hpp
@@ -173,7 +173,9 @@ public:
 private:
   static auto is_valid_char(char c) noexcept -> bool
   {
-    return c >= 0x21 && c != '\"';
+    // etagc = %x21 / %x23-7E / obs-text
+    const auto ch = static_cast<unsigned char>(c);
+    return ch >= 0x21 && ch != '\"' && ch != 0x7f;
   }
 
   bool strong_;
-- 
2.43.0


From bc04a34d4f7e4f379d594f3b3176787b6cbb2399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:32 +0000
Subject: [PATCH 16/39] fix: if_none_match splits a tag that contains a comma

---
 include/fitoria/http/header/if_none_match.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/fitoria/http/header/if_none_match.hpp b/include/fitoria/http/header/if_none_match.hpp
index dc49bac..c2fd1cf 100644
--- a/include/fitoria/http/header/if_none_match.hpp
+++ b/include/fitoria/http/header/if_none_match.hpp
@@ -120,14 +120,27 @@ public:
     }
 
     std::vector<entity_tag> etags;
-    auto tokens = split_of(input, ",");
-    for (auto& token : tokens) {
-      auto etag = entity_tag::parse(token);
+    for (;;) {
+      // a comma inside of the quotes belongs to the tag
+      auto pos = std::size_t(0);
+      for (auto quoted = false;
+           pos < input.size() && (quoted || input[pos] != ',');
+           ++pos) {
+        if (input[pos] == '\"') {
+          quoted = !quoted;
+        }
+      }
+
+      auto etag = entity_tag::parse(trim(input.substr(0, pos)));
       if (!etag) {
         return nullopt;
       }
 
       etags.push_back(std::move(*etag));
+      if (pos == input.size()) {
+        break;
+      }
+      input.remove_prefix(pos + 1);
     }
 
     return if_none_match(std::move(etags));
-- 
2.43.0


From f6200c429896888216b702ffcff9263720101ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:32 +0000
Subject: [PATCH 17/39] fix: mime_view rejects names with a dot such as
 vnd.api+json

---
 include/fitoria/mime/mime_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/mime/mime_view.hpp b/include/fitoria/mime/mime_view.hpp
index 40aa08a..eae57b2 100644
--- a/include/fitoria/mime/mime_view.hpp
+++ b/include/fitoria/mime/mime_view.hpp
@@ -341,7 +341,7 @@ private:
 
     return std::all_of(str.begin(), str.end(), [](char c) {
       return std::isalnum(c) || c == '!' || c == '#' || c == '$' || c == '&'
-          || c == '-' || c == '^' || c == '_';
+          || c == '-' || c == '^' || c == '_' || c == '.';
     });
   }
 
-- 
2.43.0


From f0ce5e8bb716669de4a1f1ee776aef22da84b530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:32 +0000
Subject: [PATCH 18/39] fix: static_file accepts a range whose end wraps around

---
 include/fitoria/web/static_file.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/web/static_file.hpp b/include/fitoria/web/static_file.hpp
index 51b07aa..db4d3e9 100644
--- a/include/fitoria/web/static_file.hpp
+++ b/include/fitoria/web/static_file.hpp
@@ -208,7 +208,8 @@ public:
     if (auto header = req.headers().get(http::field::range); header) {
       if (auto range = http::header::range::parse(*header, file->size()); range
           && cmp_eq_ci(range->unit(), "bytes")
-          && (*range)[0].offset + (*range)[0].length <= file->size()) {
+          && (*range)[0].offset <= file->size()
+          && (*range)[0].length <= file->size() - (*range)[0].offset) {
         return static_file(std::move(*file),
                            ct,
                            cd,
-- 
2.43.0


From af08180e27a0ec23455407c60d4066eea23e8869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:16 +0000
Subject: [PATCH 19/39] fix: an empty chunk of a streamed body ends the
 response early

---
 include/fitoria/web/async_write_chunks.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/fitoria/web/async_write_chunks.hpp b/include/fitoria/web/async_write_chunks.hpp
index b0586d0..89a71ff 100644
--- a/include/fitoria/web/async_write_chunks.hpp
+++ b/include/fitoria/web/async_write_chunks.hpp
@@ -34,6 +34,11 @@ auto async_write_chunks(AsyncWritableStream&& to, AsyncReadableStream&& from)
        data = co_await from.async_read_some()) {
     auto& d = *data;
     if (d) {
+      // an empty chunk would be taken for the last one
+      if (d->empty()) {
+        continue;
+      }
+
       if (auto result = co_await async_write(
               to, make_chunk(net::buffer(*d)), use_awaitable);
           !result) {
-- 
2.43.0


From 659222875285aa46a4d53c1792eee4b1bab4203b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:16 +0000
Subject: [PATCH 20/39] fix: async_read_until_eof passes null pointers to
 memcpy for an empty chunk

---
 include/fitoria/web/async_read_until_eof.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fitoria/web/async_read_until_eof.hpp b/include/fitoria/web/async_read_until_eof.hpp
index b8b0baa..d03c121 100644
--- a/include/fitoria/web/async_read_until_eof.hpp
+++ b/include/fitoria/web/async_read_until_eof.hpp
@@ -29,6 +29,10 @@ auto async_read_until_eof(AsyncReadableStream&& stream)
        data = co_await stream.async_read_some()) {
     auto& d = *data;
     if (d) {
+      if (d->empty()) {
+        continue;
+      }
+
       auto writable = buffer.prepare(d->size());
       std::memcpy(writable.data(), d->data(), d->size());
       buffer.commit(d->size());
-- 
2.43.0


From 13600cd64bcc73627e50152ba8fc01ee54c4dd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:32 +0000
Subject: [PATCH 21/39] fix: an unread request body is parsed as the next
 request

---
 include/fitoria/web/http_server.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index a119e23..f5f4523 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -496,11 +496,32 @@ private:
       if (!keep_alive) {
         break;
       }
+
+      // what the handler left unread must not be parsed as the next request
+      if (!co_await discard_body(buffer, stream, parser)) {
+        break;
+      }
     }
 
     co_return expected<void, std::error_code>();
   }
 
+  template <typename Stream, typename Parser>
+  auto discard_body(std::shared_ptr<flat_buffer> buffer,
+                    Stream& stream,
+                    std::shared_ptr<Parser> parser) const -> awaitable<bool>
+  {
+    auto body = async_message_parser_stream(buffer, stream, parser);
+    for (auto data = co_await body.async_read_some(); data;
+         data = co_await body.async_read_some()) {
+      if (!*data) {
+        co_return false;
+      }
+    }
+
+    co_return true;
+  }
+
   template <typename Stream>
   auto do_response(Stream& stream, response& res, bool keep_alive) const
       -> awaitable<expected<void, std::error_code>>
-- 
2.43.0


From 8e6afd0422f891f389f9fa167db4cdcdb6e2c2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:41 +0000
Subject: [PATCH 22/39] fix: an upgrade request that no websocket handler
 accepts ends the server

---
 include/fitoria/web/http_server.hpp | 12 +++++-------
 include/fitoria/web/websocket.hpp   | 26 +++++++++++---------------
 2 files changed, 16 insertions(+), 22 deletions(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index f5f4523..98892d8 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -424,9 +424,6 @@ private:
       auto session_state = std::make_shared<state_map>();
 
       if (upgrade) {
-        // timeout must be turned off, websocket has its own timeout mechanism
-        get_lowest_layer(stream).expires_never();
-
         // we don't handle expect: 100-continue here,
         // boost::beast::websocket::stream::accept() will do it for us
         (*session_state)[std::type_index(typeid(websocket))]
@@ -480,13 +477,14 @@ private:
                   .set_body("request target is invalid");
       }
 
-      if (upgrade) {
+      if (upgrade
+          && res.status().value() == http::status::switching_protocols) {
         auto& ws = *std::any_cast<websocket>(
             &(*session_state)[std::type_index(typeid(websocket))]);
         ws.set_response(std::move(res));
-        if (auto result = co_await ws.run(parser->get()); !result) {
-          co_return unexpected { result.error() };
-        }
+        // timeout must be turned off, websocket has its own timeout mechanism
+        get_lowest_layer(stream).expires_never();
+        co_return co_await ws.run(parser->get());
       } else {
         if (auto exp = co_await do_response(stream, res, keep_alive); !exp) {
           co_return unexpected { exp.error() };
diff --git a/include/fitoria/web/websocket.hpp b/include/fitoria/web/websocket.hpp
index e8753c2..cc5df72 100644
--- a/include/fitoria/web/websocket.hpp
+++ b/include/fitoria/web/websocket.hpp
@@ -441,21 +441,16 @@ private:
   {
     namespace ws = boost::beast::websocket;
 
-    if (auto res = impl_->release_response();
-        !std::holds_alternative<any_body::null>(res.body().size())) {
-      auto body
-          = co_await async_read_until_eof<std::string>(res.body().stream());
-      if (!body) {
-        co_return unexpected { body.error() };
-      }
-      impl_->set_option(ws::stream_base::decorator(
-          [&res, body = std::move(body)](ws::response_type& r) {
-            for (auto& field : res.headers()) {
-              r.set(field.name_string(), field.value());
-            }
-            r.body() = std::move(*body);
-          }));
-    }
+    auto res = impl_->release_response();
+    impl_->set_option(
+        ws::stream_base::decorator([&res](ws::response_type& r) {
+          for (auto& field : res.headers()) {
+            r.erase(field.name_string());
+          }
+          for (auto& field : res.headers()) {
+            r.insert(field.name_string(), field.value());
+          }
+        }));
 
     if (auto result = co_await impl_->async_accept(req); !result) {
       co_return unexpected { result.error() };
@@ -523,6 +518,7 @@ private:
       builder.set_header(http::field::sec_websocket_version, "13");
       impl_->set_response(builder.set_body(
           make_error_code(ws::error::bad_sec_version).message()));
+      return;
     }
 
     builder.set_header(http::field::upgrade, "websocket");
-- 
2.43.0


From a0f76671f2121f84de6c22619b75e46437d1e927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:52 +0000
Subject: [PATCH 23/39] fix: responses to HEAD and with status 1xx, 204 or 304
 are sent with a body

---
 include/fitoria/web/http_server.hpp | 45 ++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index 98892d8..988b42f 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -413,7 +413,7 @@ private:
               = web::response::bad_request()
                     .set_header(http::field::content_type, mime::text_plain())
                     .set_body("request headers size exceeds limit");
-          co_return co_await do_response(stream, res, false);
+          co_return co_await do_response(stream, res, false, false);
         } else {
           co_return unexpected { bytes_read.error() };
         }
@@ -486,7 +486,12 @@ private:
         get_lowest_layer(stream).expires_never();
         co_return co_await ws.run(parser->get());
       } else {
-        if (auto exp = co_await do_response(stream, res, keep_alive); !exp) {
+        if (auto exp = co_await do_response(
+                stream,
+                res,
+                keep_alive,
+                parser->get().method() == http::verb::head);
+            !exp) {
           co_return unexpected { exp.error() };
         }
       }
@@ -521,18 +526,26 @@ private:
   }
 
   template <typename Stream>
-  auto do_response(Stream& stream, response& res, bool keep_alive) const
-      -> awaitable<expected<void, std::error_code>>
+  auto do_response(Stream& stream, response& res, bool keep_alive, bool head)
+      const -> awaitable<expected<void, std::error_code>>
   {
+    // these statuses never have a body
+    // https://datatracker.ietf.org/doc/html/rfc9110#section-6.4.1
+    if (res.status().category() == http::status_class::informational
+        || res.status().value() == http::status::no_content
+        || res.status().value() == http::status::not_modified) {
+      co_return co_await do_null_body_response(stream, res, keep_alive);
+    }
+
     co_return co_await std::visit(
         overloaded { [&](any_body::null) {
                       return do_null_body_response(stream, res, keep_alive);
                     },
                      [&](any_body::sized) {
-                       return do_sized_response(stream, res, keep_alive);
+                       return do_sized_response(stream, res, keep_alive, head);
                      },
                      [&](any_body::chunked) {
-                       return do_chunked_response(stream, res, keep_alive);
+                       return do_chunked_response(stream, res, keep_alive, head);
                      } },
         res.body().size());
   }
@@ -561,10 +574,14 @@ private:
   }
 
   template <typename Stream>
-  auto do_sized_response(Stream& stream, response& res, bool keep_alive) const
+  auto do_sized_response(Stream& stream,
+                         response& res,
+                         bool keep_alive,
+                         bool head) const
       -> awaitable<expected<void, std::error_code>>
   {
     using boost::beast::http::response;
+    using boost::beast::http::response_serializer;
     using boost::beast::http::vector_body;
 
     auto r = response<vector_body<std::byte>>(
@@ -579,11 +596,19 @@ private:
     r.keep_alive(keep_alive);
     r.prepare_payload();
 
+    if (head) {
+      auto ser = response_serializer<vector_body<std::byte>>(r);
+      co_return co_await async_write_header(stream, ser, use_awaitable);
+    }
+
     co_return co_await async_write(stream, r, use_awaitable);
   }
 
   template <typename Stream>
-  auto do_chunked_response(Stream& stream, response& res, bool keep_alive) const
+  auto do_chunked_response(Stream& stream,
+                           response& res,
+                           bool keep_alive,
+                           bool head) const
       -> awaitable<expected<void, std::error_code>>
   {
     using boost::beast::http::empty_body;
@@ -603,6 +628,10 @@ private:
       co_return unexpected { result.error() };
     }
 
+    if (head) {
+      co_return expected<void, std::error_code>();
+    }
+
     co_return co_await async_write_chunks(stream, res.body().stream());
   }
 
-- 
2.43.0


From 425ff3fd392cd8604edd145c949e32a7fa67eb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:12 +0000
Subject: [PATCH 24/39] fix: a body read that failed is repeated and waits
 until the timeout

---
 include/fitoria/web/async_message_parser_stream.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/fitoria/web/async_message_parser_stream.hpp b/include/fitoria/web/async_message_parser_stream.hpp
index 87c7770..b93166f 100644
--- a/include/fitoria/web/async_message_parser_stream.hpp
+++ b/include/fitoria/web/async_message_parser_stream.hpp
@@ -58,6 +58,13 @@ public:
       co_return nullopt;
     }
 
+    // a failed read must not be repeated, reading past the end of a socket
+    // waits for an event that never comes
+    if (!parser_->get().body().more) {
+      co_return unexpected { make_error_code(
+          boost::beast::http::error::partial_message) };
+    }
+
     dynamic_buffer<bytes> buffer;
     boost::system::error_code ec;
     for (auto writable = buffer.prepare(65536);;
@@ -80,6 +87,7 @@ public:
     }
 
     if (ec) {
+      parser_->get().body().more = false;
       co_return unexpected { ec };
     }
     co_return buffer.release();
-- 
2.43.0


From cd93d0ce41db890770862daa6686c4befb7cf2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:55 +0000
Subject: [PATCH 25/39] fix: a request with an unsupported transfer encoding is
 served without its body

---
 include/fitoria/web/http_server.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index 988b42f..b6b15d6 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -419,6 +419,17 @@ private:
         }
       }
 
+      // the length of such a body is unknown
+      // https://datatracker.ietf.org/doc/html/rfc9112#section-6.3
+      if (parser->get().find(http::field::transfer_encoding)
+              != parser->get().end()
+          && !parser->get().chunked()) {
+        auto res = web::response::bad_request()
+                       .set_header(http::field::content_type, mime::text_plain())
+                       .set_body("transfer encoding is not supported");
+        co_return co_await do_response(stream, res, false, false);
+      }
+
       const bool keep_alive = parser->get().keep_alive();
       const bool upgrade = is_upgrade(parser->get());
       auto session_state = std::make_shared<state_map>();
-- 
2.43.0


From 5caa3093d06dd1b2907b878f91b8fd0adec7994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:57 +0000
Subject: [PATCH 26/39] fix: an exception that is no std::exception ends the
 server when no exception handler is set

---
 include/fitoria/web/http_server.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index b6b15d6..3a69fd1 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -656,6 +656,8 @@ private:
         std::rethrow_exception(ptr);
       } catch (const std::exception& ex) {
         log::debug("[{}] exception: {}", name(), ex.what());
+      } catch (...) {
+        log::debug("[{}] exception: unknown", name());
       }
     }
   }
-- 
2.43.0


From 0a441411ce711644f9fdf3e823a6e23e6fd18e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:41 +0000
Subject: [PATCH 27/39] fix: inflate streams hang on trailing bytes and take
 truncated data for complete

The stream for raw deflate uses zlib where available: that of Beast wants as
many bits as its longest code and so misses the end, or the last codes, of
data that ends with shorter ones.
---
 .../detail/async_brotli_inflate_stream.hpp    | 24 +++++-
 .../detail/async_gzip_inflate_stream.hpp      | 20 ++++-
 .../detail/async_inflate_stream.hpp           | 29 ++++++-
 .../web/middleware/detail/gzip_stream.hpp     | 81 ++++++++++++++++---
 4 files changed, 139 insertions(+), 15 deletions(-)

diff --git a/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp b/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp
index db49e94..8135587 100644
--- a/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp
@@ -106,6 +106,11 @@ public:
   {
     auto data = co_await next_.async_read_some();
     if (!data) {
+      if (started_ && !finished_) {
+        // the input has been cut short
+        co_return unexpected { make_error_code(brotli_error::need_more_input) };
+      }
+
       co_return nullopt;
     }
 
@@ -115,6 +120,12 @@ public:
     if ((*data)->empty()) {
       co_return bytes();
     }
+    if (finished_) {
+      // the input goes on after the end of the compressed data
+      co_return unexpected { make_error_code(brotli_error::error) };
+    }
+
+    started_ = true;
 
     auto readable = dynamic_buffer<bytes>(std::move(**data));
 
@@ -130,8 +141,13 @@ public:
                             writable.size());
 
       auto ec = inflater_.write(p);
-      if (ec == brotli_error::need_more_input
-          || ec == brotli_error::need_more_output) {
+      if (!ec) {
+        finished_ = true;
+        if (p.avail_in > 0) {
+          ec = make_error_code(brotli_error::error);
+        }
+      } else if (ec == brotli_error::need_more_input
+                 || ec == brotli_error::need_more_output) {
         ec = {};
       }
       if (ec) {
@@ -141,7 +157,7 @@ public:
       readable.consume(readable.size() - p.avail_in);
       buffer.commit(writable.size() - p.avail_out);
 
-      if (readable.size() == 0 && p.avail_out > 0) {
+      if (finished_ || (readable.size() == 0 && p.avail_out > 0)) {
         break;
       }
     }
@@ -152,6 +168,8 @@ public:
 private:
   NextLayer next_;
   brotli_decoder inflater_;
+  bool started_ = false;
+  bool finished_ = false;
 };
 
 template <typename NextLayer>
diff --git a/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp b/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp
index c8e5e65..54a7995 100644
--- a/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp
@@ -43,6 +43,11 @@ public:
 
     auto data = co_await next_.async_read_some();
     if (!data) {
+      if (started_ && !finished_) {
+        // the input has been cut short
+        co_return unexpected { make_error_code(error::need_buffers) };
+      }
+
       co_return nullopt;
     }
 
@@ -52,6 +57,12 @@ public:
     if ((*data)->empty()) {
       co_return bytes();
     }
+    if (finished_) {
+      // the input goes on after the end of the compressed data
+      co_return unexpected { make_error_code(error::general) };
+    }
+
+    started_ = true;
 
     auto readable = dynamic_buffer<bytes>(std::move(**data));
 
@@ -71,6 +82,11 @@ public:
       inflater_.write(p, Flush::sync, ec);
 
       if (ec == error::end_of_stream) {
+        finished_ = true;
+        ec = p.avail_in > 0 ? make_error_code(error::general)
+                            : boost::system::error_code();
+      } else if (ec == error::need_buffers && p.avail_in == 0) {
+        // nothing left to do until more input arrives
         ec = {};
       }
       if (ec) {
@@ -80,7 +96,7 @@ public:
       readable.consume(readable.size() - p.avail_in);
       buffer.commit(writable.size() - p.avail_out);
 
-      if (readable.size() == 0 && p.avail_out > 0) {
+      if (finished_ || (readable.size() == 0 && p.avail_out > 0)) {
         break;
       }
     }
@@ -91,6 +107,8 @@ public:
 private:
   NextLayer next_;
   gzip_inflate_stream inflater_;
+  bool started_ = false;
+  bool finished_ = false;
 };
 
 template <typename NextLayer>
diff --git a/include/fitoria/web/middleware/detail/async_inflate_stream.hpp b/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
index c97fe43..364e4e9 100644
--- a/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
@@ -15,6 +15,7 @@
 #include <fitoria/core/net.hpp>
 
 #include <fitoria/web/async_readable_stream_concept.hpp>
+#include <fitoria/web/middleware/detail/gzip_stream.hpp>
 
 FITORIA_NAMESPACE_BEGIN
 
@@ -40,6 +41,13 @@ public:
 
     auto data = co_await next_.async_read_some();
     if (!data) {
+#if defined(FITORIA_HAS_ZLIB)
+      if (started_ && !finished_) {
+        // the input has been cut short
+        co_return unexpected { make_error_code(error::need_buffers) };
+      }
+#endif
+
       co_return nullopt;
     }
 
@@ -49,6 +57,12 @@ public:
     if ((*data)->empty()) {
       co_return bytes();
     }
+    if (finished_) {
+      // the input goes on after the end of the compressed data
+      co_return unexpected { make_error_code(error::general) };
+    }
+
+    started_ = true;
 
     auto readable = dynamic_buffer<bytes>(std::move(**data));
 
@@ -68,6 +82,11 @@ public:
       inflater_.write(p, Flush::sync, ec);
 
       if (ec == error::end_of_stream) {
+        finished_ = true;
+        ec = p.avail_in > 0 ? make_error_code(error::general)
+                            : boost::system::error_code();
+      } else if (ec == error::need_buffers && p.avail_in == 0) {
+        // nothing left to do until more input arrives
         ec = {};
       }
       if (ec) {
@@ -77,7 +96,7 @@ public:
       readable.consume(readable.size() - p.avail_in);
       buffer.commit(writable.size() - p.avail_out);
 
-      if (readable.size() == 0 && p.avail_out > 0) {
+      if (finished_ || (readable.size() == 0 && p.avail_out > 0)) {
         break;
       }
     }
@@ -87,7 +106,15 @@ public:
 
 private:
   NextLayer next_;
+#if defined(FITORIA_HAS_ZLIB)
+  raw_inflate_stream inflater_;
+#else
+  // does not find the end of the data if less bits are left than its longest
+  // code may have
   boost::beast::zlib::inflate_stream inflater_;
+#endif
+  bool started_ = false;
+  bool finished_ = false;
 };
 
 template <typename NextLayer>
diff --git a/include/fitoria/web/middleware/detail/gzip_stream.hpp b/include/fitoria/web/middleware/detail/gzip_stream.hpp
index 53812eb..2e8307e 100644
--- a/include/fitoria/web/middleware/detail/gzip_stream.hpp
+++ b/include/fitoria/web/middleware/detail/gzip_stream.hpp
@@ -15,6 +15,7 @@
 
 #include <fitoria/core/net.hpp>
 
+#include <string_view>
 #include <system_error>
 
 #include <zlib.h>
@@ -109,17 +110,8 @@ protected:
 class gzip_inflate_stream : public gzip_stream_base {
 public:
   gzip_inflate_stream()
+      : gzip_inflate_stream(max_wbits | gzip_header)
   {
-    auto s = std::make_unique<z_stream>();
-    s->zalloc = Z_NULL;
-    s->zfree = Z_NULL;
-    s->opaque = Z_NULL;
-    if (auto e = ::inflateInit2(&*s, max_wbits | gzip_header); e != Z_OK) {
-      FITORIA_THROW_OR(std::system_error(from_native_error(e)),
-                       std::terminate());
-    }
-
-    stream_ = std::move(s);
   }
 
   ~gzip_inflate_stream()
@@ -145,6 +137,75 @@ public:
     ec = from_native_error(::inflate(&*stream_, to_native(flush)));
     from_native(p);
   }
+
+protected:
+  explicit gzip_inflate_stream(int wbits)
+  {
+    auto s = std::make_unique<z_stream>();
+    s->zalloc = Z_NULL;
+    s->zfree = Z_NULL;
+    s->opaque = Z_NULL;
+    if (auto e = ::inflateInit2(&*s, wbits); e != Z_OK) {
+      FITORIA_THROW_OR(std::system_error(from_native_error(e)),
+                       std::terminate());
+    }
+
+    stream_ = std::move(s);
+  }
+};
+
+/// Inflates data that has neither a zlib nor a gzip header.
+class raw_inflate_stream : public gzip_inflate_stream {
+public:
+  raw_inflate_stream()
+      : gzip_inflate_stream(-max_wbits)
+  {
+  }
+
+  void write(boost::beast::zlib::z_params& p,
+             boost::beast::zlib::Flush flush,
+             boost::system::error_code& ec)
+  {
+    using boost::beast::zlib::error;
+
+    gzip_inflate_stream::write(p, flush, ec);
+    if (ec == error::general && stream_->msg != nullptr) {
+      ec = from_message(stream_->msg);
+    }
+  }
+
+private:
+  static auto from_message(std::string_view msg) -> boost::system::error_code
+  {
+    using boost::beast::zlib::error;
+
+    if (msg == "invalid block type") {
+      return make_error_code(error::invalid_block_type);
+    }
+    if (msg == "invalid stored block lengths") {
+      return make_error_code(error::invalid_stored_length);
+    }
+    if (msg == "too many length or distance symbols") {
+      return make_error_code(error::too_many_symbols);
+    }
+    if (msg == "invalid bit length repeat") {
+      return make_error_code(error::invalid_bit_length_repeat);
+    }
+    if (msg == "invalid code -- missing end-of-block") {
+      return make_error_code(error::missing_eob);
+    }
+    if (msg == "invalid literal/length code") {
+      return make_error_code(error::invalid_literal_length);
+    }
+    if (msg == "invalid distance code") {
+      return make_error_code(error::invalid_distance_code);
+    }
+    if (msg == "invalid distance too far back") {
+      return make_error_code(error::invalid_distance);
+    }
+
+    return make_error_code(error::general);
+  }
 };
 
 class gzip_deflate_stream : public gzip_stream_base {
-- 
2.43.0


From 04b381842588d38f660e6f86d88f902651189475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:41 +0000
Subject: [PATCH 28/39] fix: deflate streams drop what does not fit into one
 output buffer

---
 .../detail/async_brotli_deflate_stream.hpp    | 39 ++++++-----
 .../detail/async_deflate_stream.hpp           | 69 +++++++++++--------
 .../detail/async_gzip_deflate_stream.hpp      | 69 +++++++++++--------
 3 files changed, 101 insertions(+), 76 deletions(-)

diff --git a/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp b/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp
index 1d7e165..59a680f 100644
--- a/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp
@@ -140,18 +140,19 @@ public:
       finish_ = true;
 
       auto buffer = dynamic_buffer<bytes>();
-      auto writable = buffer.prepare(65536);
+      while (!deflater_.is_done()) {
+        auto writable = buffer.prepare(65536);
 
-      auto p = broti_params(nullptr, 0, writable.data(), writable.size());
+        auto p = broti_params(nullptr, 0, writable.data(), writable.size());
 
-      auto ec = deflater_.write(p, brotli_encoder_operation::finish);
+        auto ec = deflater_.write(p, brotli_encoder_operation::finish);
+        if (ec) {
+          co_return unexpected { ec };
+        }
 
-      FITORIA_ASSERT(ec != brotli_error::need_more_output);
-      if (ec) {
-        co_return unexpected { ec };
+        buffer.commit(writable.size() - p.avail_out);
       }
 
-      buffer.commit(writable.size() - p.avail_out);
       co_return buffer.release();
     }
 
@@ -163,21 +164,27 @@ public:
       co_return bytes();
     }
 
+    auto input = dynamic_buffer<bytes>(std::move(*readable));
     auto buffer = dynamic_buffer<bytes>();
-    auto writable
-        = buffer.prepare(std::max(readable->size(), std::size_t(65536)));
 
-    auto p = broti_params(
-        readable->data(), readable->size(), writable.data(), writable.size());
+    while (input.size() > 0) {
+      auto writable
+          = buffer.prepare(std::max(input.size(), std::size_t(65536)));
+
+      auto p = broti_params(input.cdata().data(),
+                            input.cdata().size(),
+                            writable.data(),
+                            writable.size());
 
-    auto ec = deflater_.write(p, brotli_encoder_operation::process);
+      auto ec = deflater_.write(p, brotli_encoder_operation::process);
+      if (ec) {
+        co_return unexpected { ec };
+      }
 
-    FITORIA_ASSERT(ec != brotli_error::need_more_output);
-    if (ec) {
-      co_return unexpected { ec };
+      input.consume(input.size() - p.avail_in);
+      buffer.commit(writable.size() - p.avail_out);
     }
 
-    buffer.commit(writable.size() - p.avail_out);
     co_return buffer.release();
   }
 
diff --git a/include/fitoria/web/middleware/detail/async_deflate_stream.hpp b/include/fitoria/web/middleware/detail/async_deflate_stream.hpp
index dd75801..dec90e5 100644
--- a/include/fitoria/web/middleware/detail/async_deflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_deflate_stream.hpp
@@ -47,26 +47,29 @@ public:
       finish_ = true;
 
       auto buffer = dynamic_buffer<bytes>();
-      auto writable = buffer.prepare(65536);
-
-      auto p = z_params();
-      p.next_in = nullptr;
-      p.avail_in = 0;
-      p.next_out = writable.data();
-      p.avail_out = writable.size();
-
-      boost::system::error_code ec;
-      deflater_.write(p, Flush::finish, ec);
-
-      FITORIA_ASSERT(ec != error::need_buffers);
-      if (ec == error::end_of_stream) {
-        ec = {};
-      }
-      if (ec) {
-        co_return unexpected { ec };
+      for (;;) {
+        auto writable = buffer.prepare(65536);
+
+        auto p = z_params();
+        p.next_in = nullptr;
+        p.avail_in = 0;
+        p.next_out = writable.data();
+        p.avail_out = writable.size();
+
+        boost::system::error_code ec;
+        deflater_.write(p, Flush::finish, ec);
+
+        buffer.commit(writable.size() - p.avail_out);
+
+        if (ec == error::end_of_stream) {
+          break;
+        }
+        // a full output buffer only means that there is more to come
+        if (ec && (ec != error::need_buffers || p.avail_out > 0)) {
+          co_return unexpected { ec };
+        }
       }
 
-      buffer.commit(writable.size() - p.avail_out);
       co_return buffer.release();
     }
 
@@ -78,24 +81,30 @@ public:
       co_return bytes();
     }
 
+    auto input = dynamic_buffer<bytes>(std::move(*readable));
     auto buffer = dynamic_buffer<bytes>();
-    auto writable
-        = buffer.prepare(std::max(readable->size(), std::size_t(65536)));
 
-    auto p = z_params();
-    p.next_in = readable->data();
-    p.avail_in = readable->size();
-    p.next_out = writable.data();
-    p.avail_out = writable.size();
+    while (input.size() > 0) {
+      auto writable
+          = buffer.prepare(std::max(input.size(), std::size_t(65536)));
 
-    boost::system::error_code ec;
-    deflater_.write(p, Flush::none, ec);
+      auto p = z_params();
+      p.next_in = input.cdata().data();
+      p.avail_in = input.cdata().size();
+      p.next_out = writable.data();
+      p.avail_out = writable.size();
+
+      boost::system::error_code ec;
+      deflater_.write(p, Flush::none, ec);
 
-    if (ec) {
-      co_return unexpected { ec };
+      if (ec) {
+        co_return unexpected { ec };
+      }
+
+      input.consume(input.size() - p.avail_in);
+      buffer.commit(writable.size() - p.avail_out);
     }
 
-    buffer.commit(writable.size() - p.avail_out);
     co_return buffer.release();
   }
 
diff --git a/include/fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp b/include/fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp
index 2f3b57b..d929dd8 100644
--- a/include/fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp
@@ -50,26 +50,29 @@ public:
       finish_ = true;
 
       auto buffer = dynamic_buffer<bytes>();
-      auto writable = buffer.prepare(65536);
-
-      auto p = z_params();
-      p.next_in = nullptr;
-      p.avail_in = 0;
-      p.next_out = writable.data();
-      p.avail_out = writable.size();
-
-      boost::system::error_code ec;
-      deflater_.write(p, Flush::finish, ec);
-
-      FITORIA_ASSERT(ec != error::need_buffers);
-      if (ec == error::end_of_stream) {
-        ec = {};
-      }
-      if (ec) {
-        co_return unexpected { ec };
+      for (;;) {
+        auto writable = buffer.prepare(65536);
+
+        auto p = z_params();
+        p.next_in = nullptr;
+        p.avail_in = 0;
+        p.next_out = writable.data();
+        p.avail_out = writable.size();
+
+        boost::system::error_code ec;
+        deflater_.write(p, Flush::finish, ec);
+
+        buffer.commit(writable.size() - p.avail_out);
+
+        if (ec == error::end_of_stream) {
+          break;
+        }
+        // a full output buffer only means that there is more to come
+        if (ec && (ec != error::need_buffers || p.avail_out > 0)) {
+          co_return unexpected { ec };
+        }
       }
 
-      buffer.commit(writable.size() - p.avail_out);
       co_return buffer.release();
     }
 
@@ -81,24 +84,30 @@ public:
       co_return bytes();
     }
 
+    auto input = dynamic_buffer<bytes>(std::move(*readable));
     auto buffer = dynamic_buffer<bytes>();
-    auto writable
-        = buffer.prepare(std::max(readable->size(), std::size_t(65536)));
 
-    auto p = z_params();
-    p.next_in = readable->data();
-    p.avail_in = readable->size();
-    p.next_out = writable.data();
-    p.avail_out = writable.size();
+    while (input.size() > 0) {
+      auto writable
+          = buffer.prepare(std::max(input.size(), std::size_t(65536)));
 
-    boost::system::error_code ec;
-    deflater_.write(p, Flush::none, ec);
+      auto p = z_params();
+      p.next_in = input.cdata().data();
+      p.avail_in = input.cdata().size();
+      p.next_out = writable.data();
+      p.avail_out = writable.size();
+
+      boost::system::error_code ec;
+      deflater_.write(p, Flush::none, ec);
 
-    if (ec) {
-      co_return unexpected { ec };
+      if (ec) {
+        co_return unexpected { ec };
+      }
+
+      input.consume(input.size() - p.avail_in);
+      buffer.commit(writable.size() - p.avail_out);
     }
 
-    buffer.commit(writable.size() - p.avail_out);
     co_return buffer.release();
   }
 
-- 
2.43.0


From c8070487412adf236d30381c1c7988422d9397a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:41 +0000
Subject: [PATCH 29/39] fix: decompress refuses the coding br and ignores all
 but the first Content-Encoding header

---
 include/fitoria/web/middleware/decompress.hpp | 34 +++++++------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/include/fitoria/web/middleware/decompress.hpp b/include/fitoria/web/middleware/decompress.hpp
index b38e738..20230cd 100644
--- a/include/fitoria/web/middleware/decompress.hpp
+++ b/include/fitoria/web/middleware/decompress.hpp
@@ -34,8 +34,17 @@ class decompress_middleware {
 public:
   auto operator()(Request req) const -> Response
   {
-    if (auto str = req.headers().get(http::field::content_encoding); str) {
-      auto encs = split_of(*str, ",");
+    if (req.headers().contains(http::field::content_encoding)) {
+      // the list may be spread over several headers
+      std::vector<std::string_view> encs;
+      for (auto [it, last]
+           = req.headers().equal_range(http::field::content_encoding);
+           it != last;
+           ++it) {
+        for (auto& enc : split_of(it->value(), ",")) {
+          encs.push_back(enc);
+        }
+      }
       std::reverse(encs.begin(), encs.end());
 
       auto body = std::move(req.body());
@@ -48,7 +57,7 @@ public:
           body = detail::async_gzip_inflate_stream(std::move(body));
 #endif
 #if defined(FITORIA_HAS_BROTLI)
-        } else if (cmp_eq_ci(enc, "brotli")) {
+        } else if (cmp_eq_ci(enc, "br") || cmp_eq_ci(enc, "brotli")) {
           body = detail::async_brotli_inflate_stream(std::move(body));
 #endif
         } else if (cmp_eq_ci(enc, "identity")) {
@@ -57,16 +66,10 @@ public:
               .set_header(http::field::content_type, mime::text_plain())
               .set_body(R"(unsupported "Content-Encoding".)");
         }
-        *str = remove_last_encoding(*str);
       }
 
       auto builder = req.builder();
-
-      if (str->empty()) {
-        builder.headers().erase(http::field::content_encoding);
-      } else {
-        builder.set_header(http::field::content_encoding, *str);
-      }
+      builder.headers().erase(http::field::content_encoding);
 
       req = builder.set_body(std::move(body));
     }
@@ -81,17 +84,6 @@ private:
   {
   }
 
-  static auto remove_last_encoding(std::string_view str) -> std::string_view
-  {
-    if (auto pos = str.find_last_of(','); pos != std::string_view::npos) {
-      str = str.substr(0, pos);
-    } else {
-      str = {};
-    }
-
-    return str;
-  }
-
   Next next_;
 };
 
-- 
2.43.0


From 016e8c8afef772dd74fce0bfe0a5588c57088585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:41 +0000
Subject: [PATCH 30/39] fix: header_map loses its headers when assigned to
 itself

---
 include/fitoria/http/header_map.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/http/header_map.hpp b/include/fitoria/http/header_map.hpp
index 3bf7687..71e9856 100644
--- a/include/fitoria/http/header_map.hpp
+++ b/include/fitoria/http/header_map.hpp
@@ -50,7 +50,15 @@ public:
 
   header_map(header_map&&) = default;
 
-  header_map& operator=(const header_map&) = default;
+  header_map& operator=(const header_map& other)
+  {
+    // the implementation clears itself before it copies
+    if (this != std::addressof(other)) {
+      impl_ = other.impl_;
+    }
+
+    return *this;
+  }
 
   header_map& operator=(header_map&&) = default;
 
-- 
2.43.0


From 3bc887829fdad0463ebe33ae0d91f0d74532daf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 31/39] fix: async_logger reorders records, drops them when
 destroyed and is used after it is freed

---
 include/fitoria/log/async_logger.hpp | 58 +++++++++++++++-------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/include/fitoria/log/async_logger.hpp b/include/fitoria/log/async_logger.hpp
index d2569bf..64dbc78 100644
--- a/include/fitoria/log/async_logger.hpp
+++ b/include/fitoria/log/async_logger.hpp
@@ -33,34 +33,42 @@ class async_logger {
                                               void(boost::system::error_code,
                                                    record_ptr)>;
 
-  std::vector<std::shared_ptr<async_writer>> writers_;
-  filter filter_;
-  channel_t channel_;
-  std::future<void> fut_;
+  // shared with the coroutine, which might outlive the logger
+  struct state {
+    std::vector<std::shared_ptr<async_writer>> writers;
+    channel_t channel;
 
-  auto async_write_to_all(record_ptr rec) -> awaitable<void>
-  {
-    for (auto& writer : writers_) {
-      co_await writer->async_write(rec);
+    state(std::size_t max_buffer_size)
+        : channel(net::system_executor(), max_buffer_size)
+    {
     }
-  }
+  };
 
-  auto async_dequeue_and_write() -> awaitable<void>
+  filter filter_;
+  std::shared_ptr<state> state_;
+  std::future<void> fut_;
+
+  static auto async_dequeue_and_write(std::shared_ptr<state> state)
+      -> awaitable<void>
   {
     for (;;) {
-      auto rec = co_await channel_.async_receive(use_awaitable);
-      if (!rec) {
+      auto rec = co_await state->channel.async_receive(use_awaitable);
+      if (!rec || !*rec) {
         break;
       }
 
-      co_await async_write_to_all(std::move(*rec));
+      for (auto& writer : state->writers) {
+        co_await writer->async_write(*rec);
+      }
     }
   }
 
-  auto async_enqueue(record_ptr rec) -> awaitable<void>
+  // the channel keeps the order in which the records are sent
+  void enqueue(record_ptr rec)
   {
-    [[maybe_unused]] auto result = co_await channel_.async_send(
-        boost::system::error_code(), rec, use_awaitable);
+    state_->channel.async_send(boost::system::error_code(),
+                               std::move(rec),
+                               [](boost::system::error_code) {});
   }
 
   void log(record::clock_t::time_point time,
@@ -68,10 +76,7 @@ class async_logger {
            level lv,
            std::string msg)
   {
-    net::co_spawn(
-        net::system_executor(),
-        async_enqueue(std::make_shared<record>(time, loc, lv, std::move(msg))),
-        net::detached);
+    enqueue(std::make_shared<record>(time, loc, lv, std::move(msg)));
   }
 
 public:
@@ -104,17 +109,18 @@ public:
 
   async_logger(builder builder)
       : filter_(builder.flt_)
-      , channel_(net::system_executor(), builder.max_buffer_size_)
-      , fut_(net::co_spawn(
-            net::system_executor(), async_dequeue_and_write(), net::use_future))
+      , state_(std::make_shared<state>(builder.max_buffer_size_))
+      , fut_(net::co_spawn(net::system_executor(),
+                           async_dequeue_and_write(state_),
+                           net::use_future))
   {
   }
 
   ~async_logger()
   {
-    channel_.cancel();
+    // a null record ends the coroutine after all the records sent before
+    enqueue(nullptr);
 
-    // TODO: investigate if it hangs when `-fsanitizer=address` is on ?
     if (auto status = fut_.wait_for(std::chrono::seconds(30));
         status == std::future_status::ready) {
       fut_.get();
@@ -123,7 +129,7 @@ public:
 
   void add_writer(std::shared_ptr<async_writer> writer)
   {
-    writers_.push_back(std::move(writer));
+    state_->writers.push_back(std::move(writer));
   }
 
   template <typename... Args>
-- 
2.43.0


From 973faab0518556ea295f4a83cc5ac52b7d7a41d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 32/39] fix: add_writer races with the records being written

---
 include/fitoria/log/async_logger.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/log/async_logger.hpp b/include/fitoria/log/async_logger.hpp
index 64dbc78..cda7b1a 100644
--- a/include/fitoria/log/async_logger.hpp
+++ b/include/fitoria/log/async_logger.hpp
@@ -21,6 +21,7 @@
 #include <fitoria/log/record.hpp>
 
 #include <memory>
+#include <mutex>
 #include <vector>
 
 FITORIA_NAMESPACE_BEGIN
@@ -35,6 +36,7 @@ class async_logger {
 
   // shared with the coroutine, which might outlive the logger
   struct state {
+    std::mutex mutex; // protects writers
     std::vector<std::shared_ptr<async_writer>> writers;
     channel_t channel;
 
@@ -42,6 +44,18 @@ class async_logger {
         : channel(net::system_executor(), max_buffer_size)
     {
     }
+
+    void add_writer(std::shared_ptr<async_writer> writer)
+    {
+      auto lock = std::lock_guard(mutex);
+      writers.push_back(std::move(writer));
+    }
+
+    auto get_writers() -> std::vector<std::shared_ptr<async_writer>>
+    {
+      auto lock = std::lock_guard(mutex);
+      return writers;
+    }
   };
 
   filter filter_;
@@ -57,7 +71,8 @@ class async_logger {
         break;
       }
 
-      for (auto& writer : state->writers) {
+      auto writers = state->get_writers();
+      for (auto& writer : writers) {
         co_await writer->async_write(*rec);
       }
     }
@@ -129,7 +144,7 @@ public:
 
   void add_writer(std::shared_ptr<async_writer> writer)
   {
-    state_->writers.push_back(std::move(writer));
+    state_->add_writer(std::move(writer));
   }
 
   template <typename... Args>
-- 
2.43.0


From a018ffce3bff233d0bdc4e94403b1e0ed5d6b178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:13 +0000
Subject: [PATCH 33/39] fix: query_map::set keeps the old value of an existing
 key

---
 include/fitoria/web/query_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/web/query_map.hpp b/include/fitoria/web/query_map.hpp
index 0c7950f..a33c9ce 100644
--- a/include/fitoria/web/query_map.hpp
+++ b/include/fitoria/web/query_map.hpp
@@ -122,7 +122,7 @@ public:
   /// @endverbatim
   void set(std::string name, std::string value)
   {
-    map_.insert({ std::move(name), std::move(value) });
+    map_.insert_or_assign(std::move(name), std::move(value));
   }
 
   /// @verbatim embed:rst:leading-slashes
-- 
2.43.0


From 8c4be393c32e45a2b2073ca3c493506563b9d7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:13 +0000
Subject: [PATCH 34/39] fix: request_builder::set_body and set_json return a
 moved-from request

---
 include/fitoria/web/request.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/fitoria/web/request.hpp b/include/fitoria/web/request.hpp
index a9ae7d5..244635e 100644
--- a/include/fitoria/web/request.hpp
+++ b/include/fitoria/web/request.hpp
@@ -410,8 +410,7 @@ public:
   /// @endverbatim
   auto set_body(std::string_view sv) -> request
   {
-    set_body(std::as_bytes(std::span(sv.begin(), sv.end())));
-    return build();
+    return set_body(std::as_bytes(std::span(sv.begin(), sv.end())));
   }
 
   /// @verbatim embed:rst:leading-slashes
@@ -444,8 +443,7 @@ public:
   {
     auto str = boost::json::serialize(jv);
     set_header(http::field::content_type, mime::application_json());
-    set_body(std::as_bytes(std::span(str.begin(), str.end())));
-    return build();
+    return set_body(std::as_bytes(std::span(str.begin(), str.end())));
   }
 
   /// @verbatim embed:rst:leading-slashes
-- 
2.43.0


From 845eeeeea73509d8aeeb9bbf4596c66409e447af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:27 +0000
Subject: [PATCH 35/39] fix: a plus sign in a form is not decoded to a space

---
 include/fitoria/web/detail/as_form.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/web/detail/as_form.hpp b/include/fitoria/web/detail/as_form.hpp
index b8c385a..ad39a8f 100644
--- a/include/fitoria/web/detail/as_form.hpp
+++ b/include/fitoria/web/detail/as_form.hpp
@@ -28,7 +28,9 @@ inline expected<query_map, std::error_code> as_form(std::string_view text)
     return unexpected { res.error() };
   }
 
-  auto params = static_cast<boost::urls::params_view>(*res);
+  boost::urls::encoding_opts opts;
+  opts.space_as_plus = true;
+  auto params = boost::urls::params_view(text, opts);
 
   query_map map;
   for (auto kv : params) {
-- 
2.43.0


From 07ceb0f0794cff4289f85be8a9576d18b912765a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:40 +0000
Subject: [PATCH 36/39] fix: a state is copied when another state is added to
 its scope or route

---
 include/fitoria/web/http_server.hpp   | 4 ++--
 include/fitoria/web/scope.hpp         | 2 +-
 include/fitoria/web/state_storage.hpp | 7 ++++---
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index 3a69fd1..f01a594 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -438,7 +438,7 @@ private:
         // we don't handle expect: 100-continue here,
         // boost::beast::websocket::stream::accept() will do it for us
         (*session_state)[std::type_index(typeid(websocket))]
-            = websocket(stream);
+            = std::make_shared<std::any>(websocket(stream));
       } else {
         if (auto it = parser->get().find(http::field::expect);
             it != parser->get().end()
@@ -491,7 +491,7 @@ private:
       if (upgrade
           && res.status().value() == http::status::switching_protocols) {
         auto& ws = *std::any_cast<websocket>(
-            &(*session_state)[std::type_index(typeid(websocket))]);
+            (*session_state)[std::type_index(typeid(websocket))].get());
         ws.set_response(std::move(res));
         // timeout must be turned off, websocket has its own timeout mechanism
         get_lowest_layer(stream).expires_never();
diff --git a/include/fitoria/web/scope.hpp b/include/fitoria/web/scope.hpp
index b36f2d3..8227e86 100644
--- a/include/fitoria/web/scope.hpp
+++ b/include/fitoria/web/scope.hpp
@@ -54,7 +54,7 @@ public:
     // the map is shared with the scope this one is made from and its routes
     auto new_state_map = std::make_shared<state_map>(*state_map_);
     (*new_state_map)[std::type_index(typeid(state_type))]
-        = std::any(std::forward<State>(state));
+        = std::make_shared<std::any>(std::forward<State>(state));
 
     return scope_impl<Path, std::tuple<Middlewares...>, std::tuple<Routes...>>(
         std::move(new_state_map), middlewares_, routes_);
diff --git a/include/fitoria/web/state_storage.hpp b/include/fitoria/web/state_storage.hpp
index 171ebca..d21d2eb 100644
--- a/include/fitoria/web/state_storage.hpp
+++ b/include/fitoria/web/state_storage.hpp
@@ -24,7 +24,8 @@ FITORIA_NAMESPACE_BEGIN
 
 namespace web {
 
-using state_map = std::unordered_map<std::type_index, std::any>;
+using shared_state = std::shared_ptr<std::any>;
+using state_map = std::unordered_map<std::type_index, shared_state>;
 using shared_state_map = std::shared_ptr<state_map>;
 using shared_state_maps = std::vector<shared_state_map>;
 
@@ -56,7 +57,7 @@ public:
       // the map is shared with the storage this one is made from
       copy.maps_.front() = std::make_shared<state_map>(*copy.maps_.front());
     }
-    (*copy.maps_.front())[ti] = std::move(obj);
+    (*copy.maps_.front())[ti] = std::make_shared<std::any>(std::move(obj));
 
     return copy;
   }
@@ -67,7 +68,7 @@ public:
     static_assert(not_cvref<T>, "T must not be cvref qualified");
     for (auto& map : maps_) {
       if (auto it = map->find(std::type_index(typeid(T))); it != map->end()) {
-        return *std::any_cast<T>(&it->second);
+        return *std::any_cast<T>(it->second.get());
       }
     }
 
-- 
2.43.0


From f2a110cb1e3973d117cf156b772bf5a4876e0745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:48 +0000
Subject: [PATCH 37/39] fix: report local socket paths that are too long as an
 error

net::local::stream_protocol::endpoint throws when the path does not fit
into sun_path; make_endpoint is to return the error instead.
---
 include/fitoria/web/detail/make_endpoint.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/fitoria/web/detail/make_endpoint.hpp b/include/fitoria/web/detail/make_endpoint.hpp
index 58f6236..1a498bd 100644
--- a/include/fitoria/web/detail/make_endpoint.hpp
+++ b/include/fitoria/web/detail/make_endpoint.hpp
@@ -42,6 +42,11 @@ inline auto make_endpoint(std::string_view ip_addr, std::uint16_t port)
 inline auto make_endpoint(std::string_view file_path)
     -> expected<net::local::stream_protocol::endpoint, std::error_code>
 {
+  // the endpoint throws if the path does not fit
+  if (file_path.size() >= sizeof(net::detail::sockaddr_un_type::sun_path)) {
+    return unexpected { make_error_code(std::errc::filename_too_long) };
+  }
+
   return net::local::stream_protocol::endpoint(file_path);
 }
 
-- 
2.43.0


From cc630ae35104f7d3cedb63f74f8af5044ac78816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 38/39] fix: a timeout of a connection runs concurrently with
 its reads and writes on a thread pool

---
 include/fitoria/web/http_server.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index f01a594..c842db4 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -300,13 +300,27 @@ public:
   }
 
 private:
+  // Operations and timeouts of a connection must not run concurrently, even if
+  // the execution context has more than one thread.
+  auto make_session_executor() const -> executor_type
+  {
+    if constexpr (std::is_convertible_v<net::strand<executor_type>,
+                                        executor_type>) {
+      return net::make_strand(ex_);
+    } else {
+      return ex_;
+    }
+  }
+
   template <typename Protocol>
   auto do_listen(socket_acceptor<Protocol> acceptor) const -> awaitable<void>
   {
     for (;;) {
-      if (auto socket = co_await acceptor.async_accept(use_awaitable); socket) {
+      auto ex = make_session_executor();
+      if (auto socket = co_await acceptor.async_accept(ex, use_awaitable);
+          socket) {
         net::co_spawn(
-            ex_,
+            ex,
             do_session(shared_basic_stream<Protocol>(std::move(*socket))),
             exception_handler_);
       }
@@ -319,8 +333,10 @@ private:
                  net::ssl::context& ssl_ctx) const -> awaitable<void>
   {
     for (;;) {
-      if (auto socket = co_await acceptor.async_accept(use_awaitable); socket) {
-        net::co_spawn(ex_,
+      auto ex = make_session_executor();
+      if (auto socket = co_await acceptor.async_accept(ex, use_awaitable);
+          socket) {
+        net::co_spawn(ex,
                       do_session(shared_ssl_stream<Protocol>(std::move(*socket),
                                                              ssl_ctx)),
                       exception_handler_);
-- 
2.43.0


From 245a8fa7752d73152ccecd4d5eecbe28566fe236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:44 +0000
Subject: [PATCH 39/39] fix: a TLS websocket stays open when its peer does not
 answer close_notify

---
 include/fitoria/web/http_server.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index c842db4..97dcb77 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -368,6 +368,11 @@ private:
       FITORIA_THROW_OR(std::system_error(result.error()), co_return);
     }
 
+    // the peer might never answer, and the timeout is off after a websocket
+    if (request_timeout_) {
+      get_lowest_layer(stream).expires_after(*request_timeout_);
+    }
+
     if (auto result = co_await stream.async_shutdown(use_awaitable); !result) {
       FITORIA_THROW_OR(std::system_error(result.error()), co_return);
     }
-- 
2.43.0

