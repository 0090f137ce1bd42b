From ee000f8412786ca1a694d9b25d2a117b9fdc129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:56 +0000
Subject: [PATCH 01/29] fix: tokenize '>>' as OP_RSHIFT

The operator table mapped both '<<' and '>>' to OP_LSHIFT, so a right
shift was evaluated as a left shift.
---
 src/token.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.cpp b/src/token.cpp
index 58a87b6..ceaf7f6 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -394,7 +394,7 @@ std::optional<Token> scanSyntax(Scanner& s)
         {"/", Token::OP_DIV},
         {"%", Token::OP_MOD},
         {"<<",Token::OP_LSHIFT},
-        {">>",Token::OP_LSHIFT},
+        {">>",Token::OP_RSHIFT},
         {"~", Token::OP_BITINV},
         {"|", Token::OP_BITOR},
         {"&", Token::OP_BITAND},
-- 
2.43.0


From fc50dcdad1aba9aab45b69ca7ff9ecce93e26519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:56 +0000
Subject: [PATCH 02/29] fix: reject a binary prefix that is not followed by a
 digit

For '0b' followed by a letter a-f the prefix was consumed and then no
token was produced, silently dropping input.
---
 src/token.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.cpp b/src/token.cpp
index ceaf7f6..087b3f2 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -336,7 +336,7 @@ std::optional<Token> scanNumber(Scanner& s)
     else if (s.match("0b", Scanner::Skip))
         base = 2;
 
-    if (base != 10 && !isxdigit(s.at(0)))
+    if (base != 10 && !(base > 10 ? isxdigit(s.at(0)) : isdigit(s.at(0))))
         s.fail("Expected at least one digit after base specifier");
 
     if (isdigit(s.at(0)) || (s.at(0) == '.' && isdigit(s.at(1))) || base > 10) {
-- 
2.43.0


From 01bf29650fec3a8dd41ef44348a05bf58e58be05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:56 +0000
Subject: [PATCH 03/29] fix: reject integer literals that do not fit into
 int64_t

The accumulator overflowed (undefined behaviour) and yielded an unrelated
value.
---
 src/token.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/token.cpp b/src/token.cpp
index 087b3f2..4deff36 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -13,6 +13,7 @@
 #include <string_view>
 #include <optional>
 #include <cstring>
+#include <limits>
 #include <unordered_map>
 #include <algorithm>
 
@@ -342,8 +343,11 @@ std::optional<Token> scanNumber(Scanner& s)
     if (isdigit(s.at(0)) || (s.at(0) == '.' && isdigit(s.at(1))) || base > 10) {
         int64_t n = 0;
         while (isdigit(s.at(0)) || (base > 10 && isxdigit(s.at(0)))) {
+            const auto digit = chr2digit(s, base, s.pop());
+            if (n > (std::numeric_limits<int64_t>::max() - digit) / base)
+                s.fail("Integer literal out of range");
             n *= base;
-            n += chr2digit(s, base, s.pop());
+            n += digit;
         }
 
         if (s.match(".", Scanner::Skip)) {
-- 
2.43.0


From 9569baa9939305407544d7b5730676184b342d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:56 +0000
Subject: [PATCH 04/29] fix: do not stop tokenizing at an embedded NUL byte

A NUL byte in the input was mistaken for the end of the input, so the rest
of the expression was silently ignored.
---
 src/token.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.cpp b/src/token.cpp
index 4deff36..adb41a7 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -438,7 +438,7 @@ std::vector<Token> tokenize(std::string_view expr)
         else if (auto t = scanSyntax(s))
             tokens.push_back(std::move(*t));
         else {
-            if (s.at(0) != '\0')
+            if (s)
                 s.fail("Invalid input");
             break;
         }
-- 
2.43.0


From c2fcb562bda9837f632d3a121b727e5bec0cc902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:37 +0000
Subject: [PATCH 05/29] fix: wrap around instead of overflowing in integer
 arithmetic operators

---
 include/simfil/operator.h | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/simfil/operator.h b/include/simfil/operator.h
index 884eff0..0cac5f9 100644
--- a/include/simfil/operator.h
+++ b/include/simfil/operator.h
@@ -81,7 +81,13 @@ struct OperatorNegate
 {
     NAME("-")
     DENY_OTHER()
-    DECL_OPERATION(int64_t, -)
+
+    /* Wraps around, instead of overflowing, for the smallest integer. */
+    auto operator()(int64_t v) const -> int64_t
+    {
+        return static_cast<int64_t>(0 - static_cast<uint64_t>(v));
+    }
+
     DECL_OPERATION(double,  -)
 };
 
@@ -353,13 +359,20 @@ struct OperatorAsString
         return a op b;                                              \
     }
 
+/* Signed integer arithmetic that wraps around instead of overflowing. */
+#define DECL_INT_OPERATION(op)                                          \
+    auto operator()(int64_t l, int64_t r) const -> int64_t              \
+    {                                                                   \
+        return static_cast<int64_t>(                                    \
+            static_cast<uint64_t>(l) op static_cast<uint64_t>(r));      \
+    }
 
 struct OperatorAdd
 {
     NAME("+")
     DENY_OTHER()
     NULL_AS_NULL()
-    DECL_OPERATION(int64_t,            int64_t,            +)
+    DECL_INT_OPERATION(+)
     DECL_OPERATION(int64_t,            double,             +)
     DECL_OPERATION(double,             int64_t,            +)
     DECL_OPERATION(double,             double,             +)
@@ -408,7 +421,7 @@ struct OperatorSub
     NAME("-")
     DENY_OTHER()
     NULL_AS_NULL()
-    DECL_OPERATION(int64_t,     int64_t,     -)
+    DECL_INT_OPERATION(-)
     DECL_OPERATION(int64_t,     double,      -)
     DECL_OPERATION(double,      int64_t,     -)
     DECL_OPERATION(double,      double,      -)
@@ -419,7 +432,7 @@ struct OperatorMul
     NAME("*")
     DENY_OTHER()
     NULL_AS_NULL()
-    DECL_OPERATION(int64_t,     int64_t,     *)
+    DECL_INT_OPERATION(*)
     DECL_OPERATION(int64_t,     double,      *)
     DECL_OPERATION(double,      int64_t,     *)
     DECL_OPERATION(double,      double,      *)
@@ -435,6 +448,8 @@ struct OperatorDiv
     {
         if (r == 0)
             raise<std::runtime_error>("Division by zero");
+        if (r == -1) /* l / r overflows for the smallest integer */
+            return OperatorNegate()(l);
         return static_cast<int64_t>(l / r);
     }
 
@@ -470,6 +485,8 @@ struct OperatorMod
     {
         if (r == 0)
             raise<std::runtime_error>("Division by zero");
+        if (r == -1) /* l % r overflows for the smallest integer */
+            return 0;
         return static_cast<int64_t>(l % r);
     }
 };
@@ -620,6 +637,7 @@ struct OperatorShr
 
 #undef DENY_OTHER
 #undef DECL_OPERATION
+#undef DECL_INT_OPERATION
 #undef NULL_AS
 #undef NULL_AS_NULL
 #undef NAME
-- 
2.43.0


From c7ff93b6b0c186edeab693f874a96ce2601d679d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:37 +0000
Subject: [PATCH 06/29] fix: define shifts by counts outside 0..63 instead of
 relying on undefined behaviour

---
 include/simfil/operator.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/simfil/operator.h b/include/simfil/operator.h
index 0cac5f9..d2c851b 100644
--- a/include/simfil/operator.h
+++ b/include/simfil/operator.h
@@ -623,7 +623,12 @@ struct OperatorShl
     NULL_AS_NULL()
     INT_AS_UINT()
     DENY_OTHER()
-    DECL_OPERATION(uint64_t,     uint64_t,     <<)
+
+    /* All bits are shifted out for counts that exceed the bit width (or are negative). */
+    auto operator()(uint64_t l, uint64_t r) const -> uint64_t
+    {
+        return r < 64 ? l << r : 0;
+    }
 };
 
 struct OperatorShr
@@ -632,7 +637,12 @@ struct OperatorShr
     NULL_AS_NULL()
     INT_AS_UINT()
     DENY_OTHER()
-    DECL_OPERATION(uint64_t,     uint64_t,     >>)
+
+    /* All bits are shifted out for counts that exceed the bit width (or are negative). */
+    auto operator()(uint64_t l, uint64_t r) const -> uint64_t
+    {
+        return r < 64 ? l >> r : 0;
+    }
 };
 
 #undef DENY_OTHER
-- 
2.43.0


From 3502e078b65bc806994772f7944a05cc37ceb9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:37 +0000
Subject: [PATCH 07/29] fix: clamp floats out of range when casting to int

---
 include/simfil/operator.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/simfil/operator.h b/include/simfil/operator.h
index d2c851b..d789033 100644
--- a/include/simfil/operator.h
+++ b/include/simfil/operator.h
@@ -6,6 +6,7 @@
 #include "exception-handler.h"
 
 #include <cstdint>
+#include <limits>
 #include <string_view>
 #include <string>
 
@@ -215,6 +216,13 @@ struct OperatorAsInt
 
     auto operator()(double v) const
     {
+        /* Converting a value out of range (or NaN) is undefined, clamp it. */
+        if (v != v)
+            return (int64_t)0;
+        if (v >= 9223372036854775808.0)
+            return std::numeric_limits<int64_t>::max();
+        if (v < -9223372036854775808.0)
+            return std::numeric_limits<int64_t>::min();
         return static_cast<int64_t>(v);
     }
 
-- 
2.43.0


From 91d3870fd6a2eaa81f65c35f471b3ec7ba19a7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:37 +0000
Subject: [PATCH 08/29] fix: cast of an object or array to float yields a float

---
 include/simfil/operator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/simfil/operator.h b/include/simfil/operator.h
index d789033..92a1f3a 100644
--- a/include/simfil/operator.h
+++ b/include/simfil/operator.h
@@ -272,7 +272,7 @@ struct OperatorAsFloat
 
     auto operator()(const ModelNode&) const
     {
-        return (int64_t)0.0;
+        return 0.0;
     }
 
     NULL_AS((double)0)
-- 
2.43.0


From bacfd383c74d57b86088a745ec5effb1236553ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:47 +0000
Subject: [PATCH 09/29] fix: do not recurse endlessly when a user-defined type
 does not support typeof

---
 include/simfil/operator.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/simfil/operator.h b/include/simfil/operator.h
index 92a1f3a..2ff847d 100644
--- a/include/simfil/operator.h
+++ b/include/simfil/operator.h
@@ -697,11 +697,12 @@ struct UnaryOperatorDispatcher
 
             return value.visit(UnaryOperatorDispatcher());
         } catch (const InvalidOperandsError& err) {
-            std::string ltype;
-            try {
-                ltype = UnaryOperatorDispatcher<OperatorTypeof>::dispatch(value).toString();
-            } catch (...) {
-                ltype = valueType2String(value.type);
+            std::string ltype = valueType2String(value.type);
+            /* If it is typeof that failed, asking for the type again would never end. */
+            if constexpr (!std::is_same_v<_Operator, OperatorTypeof>) {
+                try {
+                    ltype = UnaryOperatorDispatcher<OperatorTypeof>::dispatch(value).toString();
+                } catch (...) {}
             }
             raise<std::runtime_error>("Invalid operand "s + ltype +
                                      " for operator "s + std::string(err.operatorName));
-- 
2.43.0


From 7ceb8cbb4510cfaa9b74e5f06429811bc6808630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:51 +0000
Subject: [PATCH 10/29] fix: copying, moving and self-assignment of
 user-defined values

---
 include/simfil/transient.h | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/simfil/transient.h b/include/simfil/transient.h
index 03f27de..92551c2 100644
--- a/include/simfil/transient.h
+++ b/include/simfil/transient.h
@@ -50,14 +50,18 @@ struct TransientObject
     void* data = nullptr;
 
     TransientObject(const TransientObject& other)
-        : meta(other.meta), data(meta->copy(other.data))
+        : meta(other.meta), data(meta ? meta->copy(other.data) : nullptr)
     {}
 
     auto operator=(const TransientObject& other)
     {
-        meta->deinit(data);
-        meta = other.meta;
-        data = meta->copy(other.data);
+        if (this != &other) {
+            auto newData = other.meta ? other.meta->copy(other.data) : nullptr;
+            if (meta)
+                meta->deinit(data);
+            meta = other.meta;
+            data = newData;
+        }
         return *this;
     }
 
@@ -71,11 +75,14 @@ struct TransientObject
 
     auto operator=(TransientObject&& other)
     {
-        meta->deinit(data);
-        meta = std::move(other.meta);
-        data = std::move(other.data);
-        other.meta = nullptr;
-        other.data = nullptr;
+        if (this != &other) {
+            if (meta)
+                meta->deinit(data);
+            meta = std::move(other.meta);
+            data = std::move(other.data);
+            other.meta = nullptr;
+            other.data = nullptr;
+        }
         return *this;
     }
 
-- 
2.43.0


From baa949cbbe23d850bdf7af5c795f24c93f8e7789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:52 +0000
Subject: [PATCH 11/29] fix: do not overflow when unpacking or measuring ranges
 near the integer limits

---
 src/types.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/types.cpp b/src/types.cpp
index 81cb5ec..51464aa 100644
--- a/src/types.cpp
+++ b/src/types.cpp
@@ -34,7 +34,7 @@ auto IRangeType::unaryOp(std::string_view op, const IRange& self) const -> Value
         return Value::make(fmt::format("{}..{}", self.begin, self.end));
 
     if (op == OperatorLen::name())
-        return Value::make(static_cast<int64_t>(self.high() - self.low()));
+        return Value::make(static_cast<int64_t>(static_cast<uint64_t>(self.high()) - static_cast<uint64_t>(self.low())));
 
     raise<InvalidOperandsError>(op);
 }
@@ -81,12 +81,12 @@ auto IRangeType::unpack(const IRange& self, std::function<bool(Value)> res) cons
     auto step = 1;
     if (begin > end)
         step = -1;
-    auto i = begin - step;
-    do {
-        i += step;
+    for (auto i = begin;; i += step) {
         if (!res(Value(ValueType::Int, static_cast<int64_t>(i))))
             return;
-    } while (i != end);
+        if (i == end)
+            return;
+    }
 }
 
 ReType ReType::Type;
-- 
2.43.0


From 5dbf94cda1b7186411f77dcb3f47ccf0190cf149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:10 +0000
Subject: [PATCH 12/29] fix: keep the string pool intact when its ids are used
 up

---
 src/model/string-pool.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index dcc7bfc..63c1f31 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -110,12 +110,14 @@ StringId StringPool::emplace(std::string_view const& str)
             return it->second;
         }
 
-        // Store the string to maintain ownership.
-        auto& storedString = storedStrings_.emplace_back(str);
-        StringId id = nextId_++;
-        if (nextId_ < id) {
+        StringId id = nextId_;
+        if (id == std::numeric_limits<StringId>::max()) {
             raise<std::overflow_error>("StringPool id overflow!");
         }
+
+        // Store the string to maintain ownership.
+        auto& storedString = storedStrings_.emplace_back(str);
+        ++nextId_;
         idForString_.emplace(storedString, id);
         stringForId_.emplace(id, storedString);
         byteSize_ += static_cast<int64_t>(storedString.size());
-- 
2.43.0


From de684838507d969fb6433dfe3ceac5ee0a92d9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:11 +0000
Subject: [PATCH 13/29] fix: let a copied string pool refer to its own strings
 only

---
 src/model/string-pool.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index 63c1f31..77ae829 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -81,8 +81,10 @@ StringPool::StringPool(const StringPool& other)
         }
     }
 
-    // Copy stringForId_.
-    stringForId_ = other.stringForId_;
+    // Rebuild stringForId_ with new string_views pointing into this->storedStrings_.
+    for (const auto& [id, oldStrView] : other.stringForId_) {
+        stringForId_.emplace(id, strDataToNewStrView.at(oldStrView.data()));
+    }
 
     // Copy other member variables.
     nextId_ = other.nextId_;
-- 
2.43.0


From e1aad4c6cf347984e8f35952351aff425932cfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 14/29] fix: load JSON null values into models instead of
 failing

---
 src/model/json.cpp  | 3 ++-
 src/model/model.cpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/model/json.cpp b/src/model/json.cpp
index 06728b4..b04040b 100644
--- a/src/model/json.cpp
+++ b/src/model/json.cpp
@@ -13,7 +13,8 @@ static ModelNode::Ptr build(const json& j, ModelPool & model)
 {
     switch (j.type()) {
     case json::value_t::null:
-        return {};
+        // The address must differ from the invalid (all zero) one.
+        return ModelNode::Ptr::make(model.shared_from_this(), ModelNodeAddress{Model::Null, 1});
     case json::value_t::boolean:
         return model.newSmallValue(j.get<bool>());
     case json::value_t::number_float:
diff --git a/src/model/model.cpp b/src/model/model.cpp
index 85af8dc..02736ff 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -22,7 +22,7 @@ void Model::resolve(const ModelNode& n, const ResolveFn& cb) const
 {
     switch (n.addr_.column()) {
         case Null:
-            cb(ModelNodeBase(shared_from_this()));
+            cb(ModelNodeBase(shared_from_this(), n.addr_));
             break;
         case UInt16:
             cb(SmallValueNode<uint16_t>(shared_from_this(), n.addr_));
-- 
2.43.0


From 14017d29006e6196b2bcd6e30d0a387949e70fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 15/29] fix: keep the magnitude of JSON integers above the
 int64 range

---
 src/model/json.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/model/json.cpp b/src/model/json.cpp
index b04040b..8190b75 100644
--- a/src/model/json.cpp
+++ b/src/model/json.cpp
@@ -3,6 +3,7 @@
 #include "simfil/model/json.h"
 #include "simfil/model/model.h"
 
+#include <limits>
 #include <nlohmann/json.hpp>
 
 namespace simfil::json
@@ -20,6 +21,9 @@ static ModelNode::Ptr build(const json& j, ModelPool & model)
     case json::value_t::number_float:
         return model.newValue(j.get<double>());
     case json::value_t::number_unsigned:
+        // Like all integers too large for the integer type, these become floats.
+        if (j.get<uint64_t>() > static_cast<uint64_t>(std::numeric_limits<int64_t>::max()))
+            return model.newValue(j.get<double>());
         return model.newValue((int64_t)j.get<uint64_t>());
     case json::value_t::number_integer:
         return model.newValue(j.get<int64_t>());
-- 
2.43.0


From bab6ddb97e987d78c12a9b99b7bdd0113853f60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 16/29] fix: do not lose a consumer's request to stop

---
 src/function.cpp |  2 +-
 src/simfil.cpp   | 28 +++++++++++++---------------
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/function.cpp b/src/function.cpp
index 716947a..4524394 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -508,7 +508,7 @@ auto SplitFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, con
     auto items = split(str.as<ValueType::String>(), sep.as<ValueType::String>(), !keepEmpty.as<ValueType::Bool>());
     for (auto&& item : items) {
         if (res(subctx, Value::make(std::move(item))) == Result::Stop)
-            break;
+            return Result::Stop;
     }
 
     return Result::Continue;
diff --git a/src/simfil.cpp b/src/simfil.cpp
index a987a40..9a3862e 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -168,17 +168,18 @@ struct CountedResultFn : ResultFn
         return fn(std::move(ctx), std::move(vv));
     }
 
-    /* NOTE: You _must_ call finish before destruction! */
-    auto ensureCall()
+    /* NOTE: You _must_ call finish before destruction!
+     * Returns the result of that call or, if there was no need for it, the given result. */
+    auto ensureCall(Result result) -> Result
     {
         assert(!finished);
         if (calls == 0 && !finished) {
             finished = true;
             if (nonctx.phase == Context::Phase::Compilation)
-                fn(nonctx, Value::undef());
-            else
-                fn(nonctx, Value::null());
+                return fn(nonctx, Value::undef());
+            return fn(nonctx, Value::null());
         }
+        return result;
     }
 };
 
@@ -227,8 +228,7 @@ public:
         };
 
         auto r = Iterate{ctx, res}.iterate(*val.node, 0);
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     }
 
     auto toString() const -> std::string override
@@ -268,7 +268,7 @@ public:
             return true;
         }));
 
-        return Result::Continue;
+        return result;
     }
 
     auto toString() const -> std::string override
@@ -457,8 +457,7 @@ public:
                 return Result::Continue;
             }));
         }));
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     }
 
     auto toString() const -> std::string override
@@ -505,8 +504,7 @@ public:
                 return Result::Continue;
             }));
         }));
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     }
 
     auto toString() const -> std::string override
@@ -608,8 +606,7 @@ public:
                 return res(ctx, std::move(vv));
             }));
         }));
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     };
 
     auto toString() const -> std::string override
@@ -646,7 +643,8 @@ public:
                 auto r = Result::Continue;
                 obj.meta->unpack(obj, [&](Value vv) {
                     anyval = true;
-                    return res(ctx, std::move(vv)) == Result::Continue;
+                    r = res(ctx, std::move(vv));
+                    return r == Result::Continue;
                 });
 
                 if (r == Result::Stop)
-- 
2.43.0


From c2c89d15268c8fa6fe598321dff9668f6726a382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 17/29] fix: let select ask its caller to stop only if its
 consumer did

---
 src/function.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/function.cpp b/src/function.cpp
index 4524394..d964e74 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -546,15 +546,16 @@ auto SelectFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, co
     if (icnt <= 0)
         icnt = std::numeric_limits<int>::max();
 
-    auto result = args[0]->eval(ctx, val, LambdaResultFn([&, n = -1](Context ctx, Value vv) mutable {
+    auto result = Result::Continue; /* Stop if requested by `res`, not at the end of the window */
+    (void)args[0]->eval(ctx, val, LambdaResultFn([&, n = -1](Context ctx, Value vv) mutable {
         ++n;
         if (ctx.phase == Context::Phase::Compilation)
             if (vv.isa(ValueType::Undef))
-                return res(ctx, std::move(vv));
+                return result = res(ctx, std::move(vv));
         if (n >= iidx + icnt)
             return Result::Stop;
         if (n >= iidx)
-            return res(ctx, std::move(vv));
+            return result = res(ctx, std::move(vv));
         return Result::Continue;
     }));
 
-- 
2.43.0


From 89d610304ce0a8af3110b881561986882731279e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 18/29] fix: stop collecting an argument's values at the first
 undefined one

---
 src/function.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/function.cpp b/src/function.cpp
index d964e74..42ea755 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -74,15 +74,15 @@ struct ArgParser
 
         auto subctx = ctx;
         args[idx]->eval(subctx, value, LambdaResultFn([&, n = 0](Context, Value vv) mutable {
-            if (++n > 1)
-                raise<std::runtime_error>(fname + ": argument "s + name + " must return a single value"s);
-
             if (vv.isa(ValueType::Undef)) {
                 anyUndef = true;
                 outValue = std::move(vv);
-                return Result::Continue;
+                return Result::Stop;
             }
 
+            if (++n > 1)
+                raise<std::runtime_error>(fname + ": argument "s + name + " must return a single value"s);
+
             if (!vv.isa(type))
                 raise<std::runtime_error>(fname + ": invalid value type for argument '"s + name + "'"s);
 
@@ -105,15 +105,15 @@ struct ArgParser
 
         auto subctx = ctx;
         args[idx]->eval(subctx, value, LambdaResultFn([&, n = 0](Context, Value vv) mutable {
-            if (++n > 1)
-                raise<std::runtime_error>(fname + ": argument "s + name + " must return a single value"s);
-
             if (vv.isa(ValueType::Undef)) {
                 anyUndef = true;
                 outValue = std::move(vv);
-                return Result::Continue;
+                return Result::Stop;
             }
 
+            if (++n > 1)
+                raise<std::runtime_error>(fname + ": argument "s + name + " must return a single value"s);
+
             if (!vv.isa(type))
                 raise<std::runtime_error>(fname + ": invalid value type for argument '"s + name + "'"s);
 
-- 
2.43.0


From 61dc7ae15f9195c0a06fb396e9aa707d7306335b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 19/29] fix: let sum forward undefined values while compiling

---
 src/function.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/function.cpp b/src/function.cpp
index 42ea755..d919041 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -581,23 +581,35 @@ auto SumFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, const
         raise<std::runtime_error>("sum: Expected at least 1 argument; got "s + std::to_string(args.size()));
 
     Value sum = Value::make((int64_t)0);
+    auto undef = false; /* At least one value is undef */
+    auto isUndef = [&](const Context& ctx, const Value& vv) {
+        if (ctx.phase == Context::Phase::Compilation && vv.isa(ValueType::Undef))
+            undef = true;
+        return undef;
+    };
 
     const Expr* subexpr = args.size() >= 2 ? args[1].get() : nullptr;
     const Expr* initval = args.size() == 3 ? args[2].get() : nullptr;
     if (initval)
         (void)initval->eval(ctx, val, LambdaResultFn([&](Context ctx, Value vv) {
+            if (isUndef(ctx, vv))
+                return Result::Stop;
             sum = std::move(vv);
             return Result::Continue;
         }));
 
     (void)args[0]->eval(ctx, val, LambdaResultFn([&, n = 0](Context ctx, Value vv) mutable {
+        if (isUndef(ctx, vv))
+            return Result::Stop;
         if (subexpr) {
             auto ov = model_ptr<OverlayNode>::make(vv);
             ov->set(StringPool::OverlaySum, sum);
             ov->set(StringPool::OverlayValue, vv);
             ov->set(StringPool::OverlayIndex, Value::make((int64_t)n++));
 
-            subexpr->eval(ctx, Value::field(ov), LambdaResultFn([&ov, &sum](auto ctx, auto vv) {
+            subexpr->eval(ctx, Value::field(ov), LambdaResultFn([&](auto ctx, auto vv) {
+                if (isUndef(ctx, vv))
+                    return Result::Stop;
                 ov->set(StringPool::OverlaySum, vv);
                 sum = vv;
                 return Result::Continue;
@@ -613,6 +625,8 @@ auto SumFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, const
         return Result::Continue;
     }));
 
+    if (undef)
+        return res(std::move(ctx), Value::undef());
     return res(std::move(ctx), sum);
 }
 
-- 
2.43.0


From 3dba2ca04af233e96d7b5e22ca5d96c090621c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 20/29] fix: do not fold paths, filters and subscripts with
 undefined parts

---
 src/simfil.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index 9a3862e..6196c9b 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -430,6 +430,10 @@ public:
 
         auto r = left_->eval(ctx, val, LambdaResultFn([this, &val, &res](Context ctx, Value lval) {
             return index_->eval(ctx, val, LambdaResultFn([this, &res, &lval](Context ctx, Value ival) {
+                /* Not known before evaluation */
+                if (ctx.phase == Context::Phase::Compilation && ival.isa(ValueType::Undef))
+                    return res(ctx, std::move(ival));
+
                 /* Field subscript */
                 if (lval.node) {
                     ModelNode::Ptr node;
@@ -493,10 +497,17 @@ public:
         auto res = CountedResultFn<const ResultFn&>(ores, ctx);
 
         auto r = left_->eval(ctx, val, LambdaResultFn([this, &res](Context ctx, Value lv) {
+            /* Not known before evaluation */
+            if (ctx.phase == Context::Phase::Compilation && lv.isa(ValueType::Undef))
+                return res(ctx, std::move(lv));
+
             return sub_->eval(ctx, lv, LambdaResultFn([&res, &lv](Context ctx, Value vv) {
                 auto bv = UnaryOperatorDispatcher<OperatorBool>::dispatch(vv);
-                if (bv.isa(ValueType::Undef))
+                if (bv.isa(ValueType::Undef)) {
+                    if (ctx.phase == Context::Phase::Compilation)
+                        return res(ctx, std::move(bv));
                     return Result::Continue;
+                }
 
                 if (bv.isa(ValueType::Bool) && bv.template as<ValueType::Bool>())
                     return res(ctx, lv);
@@ -590,15 +601,22 @@ public:
         auto res = CountedResultFn<const ResultFn&>(ores, ctx);
 
         auto r = left_->eval(ctx, val, LambdaResultFn([this, &res](Context ctx, Value v) {
-            if (v.isa(ValueType::Undef))
+            if (v.isa(ValueType::Undef)) {
+                /* Not known before evaluation */
+                if (ctx.phase == Context::Phase::Compilation)
+                    return res(ctx, std::move(v));
                 return Result::Continue;
+            }
 
             if (v.isa(ValueType::Null) && !v.node)
                 return Result::Continue;
 
             return right_->eval(ctx, std::move(v), LambdaResultFn([this, &res](Context ctx, Value vv) {
-                if (vv.isa(ValueType::Undef))
+                if (vv.isa(ValueType::Undef)) {
+                    if (ctx.phase == Context::Phase::Compilation)
+                        return res(ctx, std::move(vv));
                     return Result::Continue;
+                }
 
                 if (vv.isa(ValueType::Null) && !vv.node)
                     return Result::Continue;
-- 
2.43.0


From 64268cdadb6001fcab4f74735511e0a60bbae357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 21/29] fix: let comparisons bind tighter than equality

---
 src/simfil.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index 6196c9b..86a0d1a 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -1375,10 +1375,10 @@ auto compile(Environment& env, std::string_view sv, bool any, bool autoWildcard)
     /* Comparison/Test */
     p.infixParsers[Token::OP_EQ]     = std::make_unique<BinaryOpParser<OperatorEq,   Precedence::EQUALITY>>();
     p.infixParsers[Token::OP_NOT_EQ] = std::make_unique<BinaryOpParser<OperatorNeq,  Precedence::EQUALITY>>();
-    p.infixParsers[Token::OP_LT]     = std::make_unique<BinaryOpParser<OperatorLt,   Precedence::EQUALITY>>();
-    p.infixParsers[Token::OP_LTEQ]   = std::make_unique<BinaryOpParser<OperatorLtEq, Precedence::EQUALITY>>();
-    p.infixParsers[Token::OP_GT]     = std::make_unique<BinaryOpParser<OperatorGt,   Precedence::EQUALITY>>();
-    p.infixParsers[Token::OP_GTEQ]   = std::make_unique<BinaryOpParser<OperatorGtEq, Precedence::EQUALITY>>();
+    p.infixParsers[Token::OP_LT]     = std::make_unique<BinaryOpParser<OperatorLt,   Precedence::COMPARISON>>();
+    p.infixParsers[Token::OP_LTEQ]   = std::make_unique<BinaryOpParser<OperatorLtEq, Precedence::COMPARISON>>();
+    p.infixParsers[Token::OP_GT]     = std::make_unique<BinaryOpParser<OperatorGt,   Precedence::COMPARISON>>();
+    p.infixParsers[Token::OP_GTEQ]   = std::make_unique<BinaryOpParser<OperatorGtEq, Precedence::COMPARISON>>();
     p.infixParsers[Token::OP_AND]    = std::make_unique<AndOrParser>();
     p.infixParsers[Token::OP_OR]     = std::make_unique<AndOrParser>();
 
-- 
2.43.0


From c86bbd37a1481dc0dd9076b5c4d55496fa812a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 22/29] fix: keep the precedence of what follows a postfix
 operator

---
 src/simfil.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index 86a0d1a..ceb4712 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -1081,7 +1081,7 @@ class UnaryPostOpParser : public InfixParselet
 {
     auto parse(Parser& p, ExprPtr left, Token t) const -> ExprPtr override
     {
-        return p.parseInfix(simplifyOrForward(p.env, std::make_unique<UnaryExpr<Operator>>(std::move(left))), 0);
+        return simplifyOrForward(p.env, std::make_unique<UnaryExpr<Operator>>(std::move(left)));
     }
 
     auto precedence() const -> int override
@@ -1097,7 +1097,7 @@ class UnpackOpParser : public InfixParselet
 {
     auto parse(Parser& p, ExprPtr left, Token t) const -> ExprPtr override
     {
-        return p.parseInfix(simplifyOrForward(p.env, std::make_unique<UnpackExpr>(std::move(left))), 0);
+        return simplifyOrForward(p.env, std::make_unique<UnpackExpr>(std::move(left)));
     }
 
     auto precedence() const -> int override
@@ -1120,8 +1120,8 @@ class WordOpParser : public InfixParselet
                                                                                std::move(left),
                                                                                std::move(right)));
         /* Parse as unary operator */
-        return p.parseInfix(simplifyOrForward(p.env, std::make_unique<UnaryWordOpExpr>(std::move(t),
-                                                                                       std::move(left))), 0);
+        return simplifyOrForward(p.env, std::make_unique<UnaryWordOpExpr>(std::move(t),
+                                                                          std::move(left)));
     }
 
     auto precedence() const -> int override
-- 
2.43.0


From e7b73307bf3e23916cc36dddc40275250df2c25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 23/29] fix: do not descend into a missing node

---
 src/simfil.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index ceb4712..0411ad8 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -227,7 +227,9 @@ public:
             };
         };
 
-        auto r = Iterate{ctx, res}.iterate(*val.node, 0);
+        auto r = Result::Continue;
+        if (val.node)
+            r = Iterate{ctx, res}.iterate(*val.node, 0);
         return res.ensureCall(r);
     }
 
-- 
2.43.0


From d62f394f2c740c362e07d835d5d8195bc9a8d97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 24/29] fix: limit the number of values folded into a constant

---
 src/simfil.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index 0411ad8..ebd53be 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -939,17 +939,12 @@ static auto simplifyOrForward(Environment* env, ExprPtr expr) -> ExprPtr
 
     std::deque<Value> values;
     auto stub = Context(env, Context::Phase::Compilation);
-    (void)expr->eval(stub, Value::undef(), LambdaResultFn([&, n = 0](Context ctx, Value vv) mutable {
-        if (!vv.isa(ValueType::Undef) || vv.node) {
+    (void)expr->eval(stub, Value::undef(), LambdaResultFn([&](Context ctx, Value vv) {
+        if ((!vv.isa(ValueType::Undef) || vv.node) && values.size() < MultiConstExpr::Limit) {
             values.push_back(std::move(vv));
             return Result::Continue;
         }
 
-        if (++n > MultiConstExpr::Limit) {
-            values.clear();
-            return Result::Stop;
-        }
-
         values.clear();
         return Result::Stop;
     }));
-- 
2.43.0


From 7e8db10bbc4c87b2e89d304dfcd8b262e34d9374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 25/29] fix: do not overflow the end of the window in select

---
 src/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function.cpp b/src/function.cpp
index d919041..7fa418d 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -552,7 +552,7 @@ auto SelectFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, co
         if (ctx.phase == Context::Phase::Compilation)
             if (vv.isa(ValueType::Undef))
                 return result = res(ctx, std::move(vv));
-        if (n >= iidx + icnt)
+        if (n >= iidx && static_cast<uint64_t>(n) - static_cast<uint64_t>(iidx) >= static_cast<uint64_t>(icnt))
             return Result::Stop;
         if (n >= iidx)
             return result = res(ctx, std::move(vv));
-- 
2.43.0


From 49d7ad0f584a79c473689bf6bc830e7f26ce7d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:30 +0000
Subject: [PATCH 26/29] fix: let an overlay field be set again

---
 src/overlay.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/overlay.cpp b/src/overlay.cpp
index 612ea8e..7b04ec1 100644
--- a/src/overlay.cpp
+++ b/src/overlay.cpp
@@ -20,7 +20,7 @@ OverlayNode::OverlayNode(ModelNode const& n)
 
 auto OverlayNode::set(StringId const& key, Value const& child) -> void
 {
-    model().overlayChildren_.insert({key, child});
+    model().overlayChildren_.insert_or_assign(key, child);
 }
 
 [[nodiscard]] ScalarValueType OverlayNode::value() const
-- 
2.43.0


From cff6fa3466aed245973f7fe1102f982138891576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:31 +0000
Subject: [PATCH 27/29] fix: let overlays wrap values which are no model nodes

---
 src/overlay.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/overlay.cpp b/src/overlay.cpp
index 7b04ec1..7100b6c 100644
--- a/src/overlay.cpp
+++ b/src/overlay.cpp
@@ -41,26 +41,36 @@ auto OverlayNode::set(StringId const& key, Value const& child) -> void
             return iter->second.node;
         return ValueNode(iter->second.getScalar());
     }
-    return model().value_.node->get(key);
+    if (auto const& node = model().value_.node)
+        return node->get(key);
+    return {};
 }
 
 [[nodiscard]] ModelNode::Ptr OverlayNode::at(int64_t i) const
 {
-    return model().value_.node->at(i);
+    if (auto const& node = model().value_.node)
+        return node->at(i);
+    return {};
 }
 
 [[nodiscard]] StringId OverlayNode::keyAt(int64_t i) const
 {
-    return model().value_.node->keyAt(i);
+    if (auto const& node = model().value_.node)
+        return node->keyAt(i);
+    return {};
 }
 
 [[nodiscard]] uint32_t OverlayNode::size() const
 {
-    return model().value_.node->size();
+    if (auto const& node = model().value_.node)
+        return node->size();
+    return 0;
 }
 
 [[nodiscard]] bool OverlayNode::iterate(IterCallback const& cb) const {
-    return model().value_.node->iterate(cb);
+    if (auto const& node = model().value_.node)
+        return node->iterate(cb);
+    return true;
 }
 
 }
-- 
2.43.0


From 743fbf0c3b24ca7290b43cd06d67a1aedb4bc058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:03 +0000
Subject: [PATCH 28/29] fix: read the highest string id under the pool's lock

---
 src/model/string-pool.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index 77ae829..919d7e3 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -151,6 +151,7 @@ std::optional<std::string_view> StringPool::resolve(const StringId& id) const
 
 StringId StringPool::highest() const
 {
+    std::shared_lock stringStoreReadAccess_(stringStoreMutex_);
     return nextId_ - 1;
 }
 
@@ -190,7 +191,7 @@ void StringPool::write(std::ostream& outputStream, const StringId offset) const
 
     // Calculate how many strings will be sent
     StringId sendStrCount = 0;
-    const auto high = highest();
+    const StringId high = nextId_ - 1;
     for (auto strId = offset; strId <= high; ++strId) {
         auto it = stringForId_.find(strId);
         if (it != stringForId_.end())
-- 
2.43.0


From a733bcab81724f40778153369ad3734c556f7032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:03 +0000
Subject: [PATCH 29/29] fix: compare string pools under their locks

---
 src/model/string-pool.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index 919d7e3..26d1341 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -246,6 +246,12 @@ void StringPool::read(std::istream& inputStream)
 }
 
 bool StringPool::operator==(const StringPool &other) const {
+    if (this == &other)
+        return true;
+
+    std::shared_lock lockThis(stringStoreMutex_, std::defer_lock);
+    std::shared_lock lockOther(other.stringStoreMutex_, std::defer_lock);
+    std::lock(lockThis, lockOther);
     return idForString_ == other.idForString_;
 }
 
-- 
2.43.0

