From 0a941dd9b9a8838a0af56120e9504319537ed8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 01/32] fix: don't move out of const objects when casting to a
 const r-value reference

cast<const T&&>(value) used std::move on a non-const view of the object so
calling a function taking a const T&& through reflection would move out of a
const value and leave the caller's const object in a moved-from state.
---
 src/cast.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cast.h b/src/cast.h
index 5c1174b..e9e9d96 100644
--- a/src/cast.h
+++ b/src/cast.h
@@ -81,13 +81,14 @@ private:
 
     typedef typename std::conditional<
         std::is_rvalue_reference<Target>::value,
-        typename std::is_move_constructible<CleanTarget>::type, std::false_type>::type
+        typename std::is_constructible<CleanTarget, Target>::type, std::false_type>::type
     retRValue;
 
     template<typename T0>
     static TargetRef ret(Value& value, std::false_type, std::true_type, T0)
     {
-        return std::move(value.as<CleanTarget>());
+        // Target could be a const r-value ref in which case we have to copy.
+        return static_cast<Target>(value.as<CleanTarget>());
     }
 
     typedef typename std::is_copy_constructible<CleanTarget>::type retCopy;
-- 
2.43.0


From 67a3b6b8a14d789c04c7d117e71052931acf5a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 02/32] fix: allow functions to take Value arguments by
 reference

The signature check treats Value as a wildcard but the call itself tried to cast
the content of the Value into a reference to a Value which always failed. Pass
the Value through as is instead.
---
 src/value_function.h | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/value_function.h b/src/value_function.h
index 28fb062..64277eb 100644
--- a/src/value_function.h
+++ b/src/value_function.h
@@ -27,6 +27,35 @@
 namespace reflect {
 
 
+/******************************************************************************/
+/* CAST ARG                                                                   */
+/******************************************************************************/
+
+// Value arguments accept anything so they're passed through as is regardless of
+// how the function accepts them. This can't be left to cast<> because it would
+// try to cast the content of the Value to a reference on a Value.
+
+template<typename Arg>
+Arg&& castArg(Value& value, std::true_type)
+{
+    return static_cast<Arg&&>(value);
+}
+
+template<typename Arg>
+auto castArg(Value& value, std::false_type) -> decltype(cast<Arg>(value))
+{
+    return cast<Arg>(value);
+}
+
+template<typename Arg>
+auto castArg(Value& value) -> decltype(
+        castArg<Arg>(value, std::is_same<typename std::decay<Arg>::type, Value>()))
+{
+    typedef std::is_same<typename std::decay<Arg>::type, Value> IsValue;
+    return castArg<Arg>(value, IsValue());
+}
+
+
 /******************************************************************************/
 /* VALUE FUNCTION                                                             */
 /******************************************************************************/
@@ -105,7 +134,7 @@ private:
     template<typename... Args>
     Ret call(GlobalFunction, TypeVector<Args...>, Values&... values)
     {
-        return (*fn)(cast<Args>(values)...);
+        return (*fn)(castArg<Args>(values)...);
     }
 
     template<typename Obj, typename... Args, typename... Rest>
@@ -113,7 +142,7 @@ private:
             MemberFunction, TypeVector<Obj, Args...>,
             Value& obj, Rest&... values)
     {
-        return (cast<Obj&>(obj).*fn)(cast<Args>(values)...);
+        return (cast<Obj&>(obj).*fn)(castArg<Args>(values)...);
     }
 
     template<typename Obj, typename... Args, typename... Rest>
@@ -121,13 +150,13 @@ private:
             MemberFunction, TypeVector<const Obj, Args...>,
             Value& obj, Rest&... values)
     {
-        return (cast<const Obj&>(obj).*fn)(cast<Args>(values)...);
+        return (cast<const Obj&>(obj).*fn)(castArg<Args>(values)...);
     }
 
     template<typename... Args>
     Ret call(FunctorFunction, TypeVector<Args...>, Values&... values)
     {
-        return fn(cast<Args>(values)...);
+        return fn(castArg<Args>(values)...);
     }
 
     Fn fn;
-- 
2.43.0


From 9ef138435372fe320f432298ad82cd373fec3a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 03/32] fix: make isCastable refuse copies and moves that cast
 can't make

---
 src/cast.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cast.cpp b/src/cast.cpp
index ca8f3fe..d8384d9 100644
--- a/src/cast.cpp
+++ b/src/cast.cpp
@@ -80,7 +80,15 @@ Value copy(Value& value, const Argument& target)
 
 bool isCastable(const Value& value, const Argument& target)
 {
-    return value.argument().isConvertibleTo(target) != Match::None;
+    if (value.argument().isConvertibleTo(target) == Match::None) return false;
+    if (target.isVoid() || target.type() == type<Value>()) return true;
+
+    // Constructing the result is subject to the same restrictions as in cast.
+    switch (target.refType()) {
+    case RefType::RValue: return target.type()->isMovable();
+    case RefType::Copy:   return target.type()->isCopiable();
+    default: return true;
+    }
 }
 
 Value cast(Value& value, const Argument& target)
-- 
2.43.0


From d03ed186ee2347a83574e62e316b19398b28e510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:37 +0000
Subject: [PATCH 04/32] fix: reject scope names with out of order template
 brackets

---
 src/scope.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/scope.cpp b/src/scope.cpp
index 8850893..137f5ab 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -27,7 +27,10 @@ head(const std::string& name)
 
         switch (name[i]) {
         case '<': nesting++; break;
-        case '>': nesting--; break;
+        case '>':
+            if (!nesting) reflectError("unmatched <%c> in <%s>", '>', name);
+            nesting--;
+            break;
         case ':':
             if (nesting) continue;
             if (name.size() <= i + 1 || name[i + 1] != ':')
@@ -55,7 +58,10 @@ tail(const std::string& name)
         i--;
 
         switch (name[i]) {
-        case '<': nesting--; break;
+        case '<':
+            if (!nesting) reflectError("unmatched <%c> in <%s>", '<', name);
+            nesting--;
+            break;
         case '>': nesting++; break;
         case ':':
             if (nesting) continue;
-- 
2.43.0


From 49e6c56bd96cfa385b0f50462749b2ccc3f5bd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 05/32] fix: don't create scopes when looking them up in a
 const scope

---
 src/scope.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scope.cpp b/src/scope.cpp
index 137f5ab..f004c86 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -187,7 +187,9 @@ scope(const std::string& name) const
     if (it == scopes_.end())
         reflectError("<%s> doesn't have scope <%s>", name_, name);
 
-    return !split.second.empty() ? it->second->scope(split.second) : it->second;
+    // The non-const overload would create the missing scopes.
+    const Scope* scope = it->second;
+    return !split.second.empty() ? scope->scope(split.second) : it->second;
 }
 
 Scope*
-- 
2.43.0


From c6ad2abeebf5246f50255b37ca2a5df2256ce7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 06/32] fix: make Scope::hasFunction answer false for functions
 of unknown scopes

---
 src/scope.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scope.cpp b/src/scope.cpp
index f004c86..e0f09bc 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -354,7 +354,7 @@ hasFunction(const std::string& name) const
     auto split = tail(name);
 
     if (!split.second.empty())
-        return scope(split.second)->hasFunction(split.first);
+        return hasScope(split.second) && scope(split.second)->hasFunction(split.first);
 
     auto it = functions_.find(split.first);
     return it != functions_.end();
-- 
2.43.0


From ed8be313dfbf4aaf4bf7c9a510097b6fe53b3d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:12 +0000
Subject: [PATCH 07/32] fix: don't create scopes when looking up a function

---
 src/scope.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scope.cpp b/src/scope.cpp
index e0f09bc..5815bbc 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -366,8 +366,10 @@ function(const std::string& name)
 {
     auto split = tail(name);
 
+    // A failed lookup shouldn't create any scopes.
+    const Scope* cthis = this;
     if (!split.second.empty())
-        return scope(split.second)->function(split.first);
+        return cthis->scope(split.second)->function(split.first);
 
     auto it = functions_.find(split.first);
     if (it == functions_.end())
-- 
2.43.0


From c9c9c1e5974aba78ac83f6b33928518fb000dcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:21 +0000
Subject: [PATCH 08/32] fix: hold the registry lock while the registry is used

The lock guards were unnamed temporaries so the lock was released right
away. The lock is now recursive since loaders look up other types, and the
one time initializations that happen under or around it can't deadlock with
it or be skipped before they're done.
---
 src/argument.cpp   | 8 +++++++-
 src/dsl/template.h | 6 ++++--
 src/registry.cpp   | 9 +++++----
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/argument.cpp b/src/argument.cpp
index e279d7b..3682ee6 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -7,6 +7,8 @@
 
 #include "reflect.h"
 
+#include <atomic>
+
 #include <sstream>
 
 namespace reflect {
@@ -92,7 +94,11 @@ Match
 Argument::
 isConvertibleTo(const Argument& target) const
 {
-    static const Type* valueType = reflect::type<Value>();
+    // Not a plain static because waiting for another thread to initialize it
+    // while holding the registry lock can deadlock.
+    static std::atomic<const Type*> cachedValueType(nullptr);
+    if (!cachedValueType) cachedValueType = reflect::type<Value>();
+    const Type* valueType = cachedValueType;
 
     if (*this == target) return Match::Exact;
 
diff --git a/src/dsl/template.h b/src/dsl/template.h
index ab1184c..b069644 100644
--- a/src/dsl/template.h
+++ b/src/dsl/template.h
@@ -8,6 +8,8 @@
 #include "reflect.h"
 #pragma once
 
+#include <atomic>
+
 namespace reflect {
 
 /******************************************************************************/
@@ -17,10 +19,10 @@ namespace reflect {
 #define reflectTemplateLoader()                 \
     static void loader()                        \
     {                                           \
-        static bool loaded = false;             \
+        static std::atomic<bool> loaded(false); \
         if (loaded) return;                     \
-        loaded = true;                          \
         Registry::add<T_>();                    \
+        loaded = true;                          \
     }
 
 
diff --git a/src/registry.cpp b/src/registry.cpp
index 461b467..8a10400 100644
--- a/src/registry.cpp
+++ b/src/registry.cpp
@@ -19,7 +19,8 @@ namespace {
 
 struct RegistryState
 {
-    std::mutex lock;
+    // Recursive because loaders look up the types they refer to.
+    std::recursive_mutex lock;
     std::unordered_map<std::string, const Type*> types;
     std::unordered_map<std::string, std::string> aliases;
     std::unordered_map<std::string, std::function<void(Type*)> > loaders;
@@ -53,7 +54,7 @@ Registry::
 get(const std::string& id)
 {
     auto& registry = getRegistry();
-    std::lock_guard<std::mutex>(registry.lock);
+    std::lock_guard<std::recursive_mutex> guard(registry.lock);
 
     const std::string* pId = &id;
 
@@ -109,7 +110,7 @@ add(const std::string& id, std::function<void(Type*)> loader)
         reflectError("can't add loader for<%s>", id);
 
     auto& registry = getRegistry();
-    std::lock_guard<std::mutex>(registry.lock);
+    std::lock_guard<std::recursive_mutex> guard(registry.lock);
 
     // If we already have a loader then too-bad.
     registry.loaders.emplace(std::move(id), std::move(loader));
@@ -124,7 +125,7 @@ alias(const std::string& id, const std::string& alias)
         reflectError("<%s> can't be aliased to <%s>", alias, id);
 
     auto& registry = getRegistry();
-    std::lock_guard<std::mutex>(registry.lock);
+    std::lock_guard<std::recursive_mutex> guard(registry.lock);
 
     auto ret = registry.aliases.emplace(std::move(alias), std::move(id));
     if (!ret.second) {
-- 
2.43.0


From 635d3cf3c9658bf4a8054718c70e564e37e28845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:54 +0000
Subject: [PATCH 09/32] fix: lock scopes while they're read or modified

Loading a type adds to the global scope, whichever thread does it.
---
 src/registry.cpp |  7 +++++++
 src/registry.h   |  5 +++++
 src/scope.cpp    | 33 +++++++++++++++++++++++++++++++++
 3 files changed, 45 insertions(+)

diff --git a/src/registry.cpp b/src/registry.cpp
index 8a10400..39039b4 100644
--- a/src/registry.cpp
+++ b/src/registry.cpp
@@ -49,6 +49,13 @@ globalScope()
     return &getRegistry().scopes;
 }
 
+std::recursive_mutex&
+Registry::
+lock()
+{
+    return getRegistry().lock;
+}
+
 const Type*
 Registry::
 get(const std::string& id)
diff --git a/src/registry.h b/src/registry.h
index e975de7..f098492 100644
--- a/src/registry.h
+++ b/src/registry.h
@@ -8,6 +8,8 @@
 #include "reflect.h"
 #pragma once
 
+#include <mutex>
+
 namespace reflect {
 
 struct Type;
@@ -60,6 +62,9 @@ struct Registry
 
     static Scope* globalScope();
 
+    // Loading a type adds to the global scope so both share the same lock.
+    static std::recursive_mutex& lock();
+
 private:
     static void add(const std::string& id, const Type* type);
     static const Type* load(const std::string& id);
diff --git a/src/scope.cpp b/src/scope.cpp
index 5815bbc..d1c7c3d 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -11,6 +11,13 @@
 
 namespace reflect {
 
+namespace {
+
+typedef std::lock_guard<std::recursive_mutex> ScopeLock;
+
+} // namespace anonymous
+
+
 /******************************************************************************/
 /* UTILS                                                                      */
 /******************************************************************************/
@@ -112,6 +119,8 @@ std::string
 Scope::
 print(int indent) const
 {
+    ScopeLock lock(Registry::lock());
+
     enum { PadInc = 4 };
 
     std::stringstream ss;
@@ -156,6 +165,8 @@ std::vector<std::string>
 Scope::
 scopes() const
 {
+    ScopeLock lock(Registry::lock());
+
     std::vector<std::string> result;
     result.reserve(scopes_.size());
 
@@ -169,6 +180,8 @@ bool
 Scope::
 hasScope(const std::string& name) const
 {
+    ScopeLock lock(Registry::lock());
+
     auto split = head(name);
 
     auto it = scopes_.find(split.first);
@@ -181,6 +194,8 @@ Scope*
 Scope::
 scope(const std::string& name) const
 {
+    ScopeLock lock(Registry::lock());
+
     auto split = head(name);
 
     auto it = scopes_.find(split.first);
@@ -196,6 +211,8 @@ Scope*
 Scope::
 scope(const std::string& name)
 {
+    ScopeLock lock(Registry::lock());
+
     auto split = head(name);
 
     auto it = scopes_.find(split.first);
@@ -216,6 +233,8 @@ std::vector<std::string>
 Scope::
 types(bool includeScopes) const
 {
+    ScopeLock lock(Registry::lock());
+
     std::vector<std::string> result;
     result.reserve(types_.size());
 
@@ -239,6 +258,8 @@ bool
 Scope::
 hasType(const std::string& name)
 {
+    ScopeLock lock(Registry::lock());
+
     auto split = head(name);
 
     auto it = types_.find(split.first);
@@ -261,6 +282,8 @@ const Type*
 Scope::
 type(const std::string& name)
 {
+    ScopeLock lock(Registry::lock());
+
     auto split = head(name);
 
     auto it = types_.find(split.first);
@@ -288,6 +311,8 @@ void
 Scope::
 addType(const std::string& name)
 {
+    ScopeLock lock(Registry::lock());
+
     auto split = head(name);
 
     if (split.second.empty()) {
@@ -316,6 +341,8 @@ void
 Scope::
 addFunction(const std::string& name, Function&& fn)
 {
+    ScopeLock lock(Registry::lock());
+
     auto split = tail(name);
 
     if (!split.second.empty())
@@ -328,6 +355,8 @@ std::vector<std::string>
 Scope::
 functions(bool includeScopes) const
 {
+    ScopeLock lock(Registry::lock());
+
     std::vector<std::string> result;
     result.reserve(types_.size());
 
@@ -351,6 +380,8 @@ bool
 Scope::
 hasFunction(const std::string& name) const
 {
+    ScopeLock lock(Registry::lock());
+
     auto split = tail(name);
 
     if (!split.second.empty())
@@ -364,6 +395,8 @@ Overloads&
 Scope::
 function(const std::string& name)
 {
+    ScopeLock lock(Registry::lock());
+
     auto split = tail(name);
 
     // A failed lookup shouldn't create any scopes.
-- 
2.43.0


From 478a94075ee0413c6a5c4dab493a91af7da5d029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 10/32] fix: make the postfix operators of Value usable

Their parameter was a deduced r-value reference, which the language rejects.
---
 src/value.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/value.h b/src/value.h
index c837038..9b3fe76 100644
--- a/src/value.h
+++ b/src/value.h
@@ -54,6 +54,13 @@ struct CleanValue
         return call<Value>(#op, std::forward<Arg>(arg));        \
     }
 
+// The parameter of the postfix operators must be a plain int.
+#define reflectValueOpPostfix(op)               \
+    Value op(int arg) const                     \
+    {                                           \
+        return call<Value>(#op, arg);           \
+    }
+
 #define reflectValueOpBool(op)                          \
     template<typename Arg>                              \
     bool op(Arg&& arg) const                            \
@@ -133,9 +140,9 @@ struct Value
     reflectValueOpBinary(operator>>=)
 
     reflectValueOpUnary (operator++)
-    reflectValueOpBinary(operator++)
+    reflectValueOpPostfix(operator++)
     reflectValueOpUnary (operator--)
-    reflectValueOpBinary(operator--)
+    reflectValueOpPostfix(operator--)
 
     reflectValueOpBinary(operator+)
     reflectValueOpBinary(operator-)
-- 
2.43.0


From 1a9be989271cf3e4b14640ce12ecd7471971681d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:45 +0000
Subject: [PATCH 11/32] fix: let reflectOperators reflect classes with
 operator*

operator* was registered twice, as multiplication and as indirection, and the
second time was refused as ambiguous with the first.
---
 src/dsl/operators.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dsl/operators.h b/src/dsl/operators.h
index 8ebed0c..54b219c 100644
--- a/src/dsl/operators.h
+++ b/src/dsl/operators.h
@@ -209,7 +209,9 @@ reflectOpFn(operator*,   Indirection)
         reflectOpArithmetic();                  \
         reflectOpLogical();                     \
         reflectOpComparaison();                 \
-        reflectOpOther();                       \
+        /* operator* is part of the arithmetic operators. */    \
+        reflectOp(operator(),  Function);       \
+        reflectOp(operator[],  Array);          \
     } while(false)
 
 } // reflect
-- 
2.43.0


From 1613c520d82bb6a8c1194a979a012164b632f9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:08 +0000
Subject: [PATCH 12/32] fix: release a function's callable when another
 function is assigned to it

---
 src/function.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/function.cpp b/src/function.cpp
index 0c2a826..855572d 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -32,6 +32,8 @@ operator=(Function&& other) noexcept
 {
     if (this == &other) return *this;
 
+    if (fn) freeValueFunction(fn);
+
     fn = other.fn;
     other.fn = nullptr;
 
-- 
2.43.0


From 8d6c101d09996e1f5ba8a74c839ddb642c31ab18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:09 +0000
Subject: [PATCH 13/32] fix: report error messages longer than a kilobyte in
 full

The buffer was read past its end for messages that didn't fit in it.
---
 src/error.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/error.cpp b/src/error.cpp
index b7edf5b..35ddd0d 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -18,13 +18,27 @@ namespace reflect {
 
 std::string verrorFormat(const char* fmt, ...)
 {
-    std::va_list args;
+    std::va_list args, copy;
     va_start(args, fmt);
+    va_copy(copy, args);
 
     char buf[1024];
-    int n = std::vsnprintf(buf, sizeof(buf) - 1, fmt, args);
-
-    return std::string(buf, n);
+    int n = std::vsnprintf(buf, sizeof(buf), fmt, args);
+    va_end(args);
+
+    std::string result;
+
+    if (n >= 0 && size_t(n) < sizeof(buf)) result.assign(buf, n);
+    else if (n >= 0) {
+        // Didn't fit so go again in a string of the right size; there's an
+        // extra character for the terminating null byte.
+        result.resize(n + 1);
+        std::vsnprintf(&result[0], result.size(), fmt, copy);
+        result.resize(n);
+    }
+
+    va_end(copy);
+    return result;
 }
 
 
-- 
2.43.0


From 14e403c86883f62eccf0b9ccb25649374155d1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:01 +0000
Subject: [PATCH 14/32] fix: find converters however the type they convert to
 is spelled

reflectOpCast named converters after the type as written while they're
looked up by the id of the type, so 'reflectOpCast(long)' or a name made
visible by a using directive declared a converter which was never found.
---
 src/dsl/operators.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsl/operators.h b/src/dsl/operators.h
index 54b219c..296e8a9 100644
--- a/src/dsl/operators.h
+++ b/src/dsl/operators.h
@@ -60,7 +60,8 @@ namespace reflect {
 /******************************************************************************/
 
 #define reflectOpCast(type)                                     \
-    type_->addFunction("operator " #type "()", &T_::operator type)
+    type_->addFunction(                                         \
+            "operator " + reflect::typeId<type>() + "()", &T_::operator type)
 
 
 /******************************************************************************/
-- 
2.43.0


From 57ea80be8e24842dc4b23a8eac897c2cc8411423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:17 +0000
Subject: [PATCH 15/32] fix: report unexpected json tokens instead of aborting

The parse functions converted the token even if it wasn't the expected
one, which is a fatal error. The value being parsed is left as is.
---
 src/utils/json/parser.cpp | 12 ++++++++----
 src/utils/json/parser.tcc | 14 ++++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/utils/json/parser.cpp b/src/utils/json/parser.cpp
index f14d695..6d8811c 100644
--- a/src/utils/json/parser.cpp
+++ b/src/utils/json/parser.cpp
@@ -57,7 +57,8 @@ struct BoolParser : public Parser
 {
     void parse(Reader& reader, Value& value) const
     {
-        value.assign(parseBool(reader));
+        auto result = parseBool(reader);
+        if (!reader.error()) value.assign(std::move(result));
     }
 };
 
@@ -65,7 +66,8 @@ struct IntParser : public Parser
 {
     void parse(Reader& reader, Value& value) const
     {
-        value.assign(parseInt(reader));
+        auto result = parseInt(reader);
+        if (!reader.error()) value.assign(std::move(result));
     }
 };
 
@@ -73,7 +75,8 @@ struct FloatParser : public Parser
 {
     void parse(Reader& reader, Value& value) const
     {
-        value.assign(parseFloat(reader));
+        auto result = parseFloat(reader);
+        if (!reader.error()) value.assign(std::move(result));
     }
 };
 
@@ -81,7 +84,8 @@ struct StringParser : public Parser
 {
     void parse(Reader& reader, Value& value) const
     {
-        value.assign(parseString(reader));
+        auto result = parseString(reader);
+        if (!reader.error()) value.assign(std::move(result));
     }
 };
 
diff --git a/src/utils/json/parser.tcc b/src/utils/json/parser.tcc
index f2f99b3..ae544bc 100644
--- a/src/utils/json/parser.tcc
+++ b/src/utils/json/parser.tcc
@@ -21,12 +21,14 @@ void parseNull(Reader& reader)
 
 bool parseBool(Reader& reader)
 {
-    return reader.expectToken(Token::Bool).asBool();
+    Token token = reader.expectToken(Token::Bool);
+    return token.type() == Token::Bool ? token.asBool() : false;
 }
 
 int64_t parseInt(Reader& reader)
 {
-    return reader.expectToken(Token::Int).asInt();
+    Token token = reader.expectToken(Token::Int);
+    return token.type() == Token::Int ? token.asInt() : 0;
 }
 
 double parseFloat(Reader& reader)
@@ -34,14 +36,15 @@ double parseFloat(Reader& reader)
     Token token = reader.nextToken();
 
     if (token.type() == Token::Int);
-    else reader.assertToken(token, Token::Float);
+    else if (!reader.assertToken(token, Token::Float)) return 0;
 
     return token.asFloat();
 }
 
 std::string parseString(Reader& reader)
 {
-    return reader.expectToken(Token::String).asString();
+    Token token = reader.expectToken(Token::String);
+    return token.type() == Token::String ? token.asString() : "";
 }
 
 template<typename Fn>
@@ -59,8 +62,11 @@ void parseObject(Reader& reader, const Fn& fn)
 
     while (reader) {
         token = reader.expectToken(Token::String);
+        if (token.type() != Token::String) return;
         const std::string& key = token.asString();
+
         token = reader.expectToken(Token::KeySeparator);
+        if (token.type() != Token::KeySeparator) return;
 
         fn(key);
 
-- 
2.43.0


From e2cb72be731a719b0f8ee6597412432c2283afed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:47 +0000
Subject: [PATCH 16/32] fix: report truncated json arrays and objects

A document which ended right after a bracket or after a number in an
array or object was accepted.
---
 src/utils/json/parser.tcc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/utils/json/parser.tcc b/src/utils/json/parser.tcc
index ae544bc..f893dea 100644
--- a/src/utils/json/parser.tcc
+++ b/src/utils/json/parser.tcc
@@ -60,7 +60,9 @@ void parseObject(Reader& reader, const Fn& fn)
         return;
     }
 
-    while (reader) {
+    // Reading a number which ends the stream puts the stream in a failed state
+    // so we can't rely on it to know whether there's still a token to be read.
+    while (!reader.error()) {
         token = reader.expectToken(Token::String);
         if (token.type() != Token::String) return;
         const std::string& key = token.asString();
@@ -89,7 +91,12 @@ void parseArray(Reader& reader, const Fn& fn)
         return;
     }
 
-    for (size_t i = 0; reader; ++i) {
+    if (token.type() == Token::EOS) {
+        reader.assertToken(token, Token::ArrayEnd);
+        return;
+    }
+
+    for (size_t i = 0; !reader.error(); ++i) {
         fn(i);
 
         token = reader.nextToken();
@@ -102,7 +109,7 @@ void parseArray(Reader& reader, const Fn& fn)
 void skip(Reader& reader)
 {
     Token token = reader.peekToken();
-    if (!reader) return;
+    if (reader.error()) return;
 
     switch (token.type()) {
 
-- 
2.43.0


From 7af914a2301ec1fb499d67911840181790e381f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:47 +0000
Subject: [PATCH 17/32] fix: print the token when json can't be skipped

---
 src/utils/json/parser.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/json/parser.tcc b/src/utils/json/parser.tcc
index f893dea..587c6f6 100644
--- a/src/utils/json/parser.tcc
+++ b/src/utils/json/parser.tcc
@@ -130,7 +130,7 @@ void skip(Reader& reader)
         break;
 
     default:
-        reader.error("unable to skip token %s", token);
+        reader.error("unable to skip token %s", token.print());
         break;
 
     }
-- 
2.43.0


From 73c363e225f80063244db2d07c23e4796123bbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:23 +0000
Subject: [PATCH 18/32] fix: report invalid and out of range json numbers

Numbers without digits, or which don't fit, threw exceptions out of the
parser as did denormal floats. Ints where a float is expected, which
parseFloat wants to accept, were a fatal error.
---
 src/utils/json/json.cpp   |  3 +++
 src/utils/json/parser.tcc | 14 +++++++++++++-
 src/utils/json/token.cpp  | 40 +++++++++++++++++++++++++++++++++++----
 src/utils/json/token.h    |  3 +++
 4 files changed, 55 insertions(+), 5 deletions(-)

diff --git a/src/utils/json/json.cpp b/src/utils/json/json.cpp
index 11c5e3a..89e6266 100644
--- a/src/utils/json/json.cpp
+++ b/src/utils/json/json.cpp
@@ -14,6 +14,9 @@
 #include "dsl/all.h"
 #include "utils.h"
 
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
 #include <mutex>
 #include <algorithm>
 
diff --git a/src/utils/json/parser.tcc b/src/utils/json/parser.tcc
index 587c6f6..e2a0e50 100644
--- a/src/utils/json/parser.tcc
+++ b/src/utils/json/parser.tcc
@@ -28,7 +28,14 @@ bool parseBool(Reader& reader)
 int64_t parseInt(Reader& reader)
 {
     Token token = reader.expectToken(Token::Int);
-    return token.type() == Token::Int ? token.asInt() : 0;
+    if (token.type() != Token::Int) return 0;
+
+    if (!token.inRange(Token::Int)) {
+        reader.error("int out of range %s", token.print());
+        return 0;
+    }
+
+    return token.asInt();
 }
 
 double parseFloat(Reader& reader)
@@ -38,6 +45,11 @@ double parseFloat(Reader& reader)
     if (token.type() == Token::Int);
     else if (!reader.assertToken(token, Token::Float)) return 0;
 
+    if (!token.inRange(Token::Float)) {
+        reader.error("float out of range %s", token.print());
+        return 0;
+    }
+
     return token.asFloat();
 }
 
diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 64dccad..271ea90 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -42,17 +42,41 @@ asInt() const
     if (type_ != Int)
         reflectError("invalid conversion of token %s to <int>", print());
 
-    return std::stol(*value_);
+    errno = 0;
+    int64_t value = std::strtoll(value_->c_str(), nullptr, 10);
+    if (errno == ERANGE)
+        reflectError("token %s is out of range for <int>", print());
+
+    return value;
 }
 
 double
 Token::
 asFloat() const
 {
-    if (type_ != Float)
+    if (type_ != Float && type_ != Int)
         reflectError("invalid conversion of token %s to <float>", print());
 
-    return std::stod(*value_);
+    double value = std::strtod(value_->c_str(), nullptr);
+    if (!std::isfinite(value))
+        reflectError("token %s is out of range for <float>", print());
+
+    return value;
+}
+
+bool
+Token::
+inRange(Type type) const
+{
+    errno = 0;
+
+    if (type == Int) {
+        (void) std::strtoll(value_->c_str(), nullptr, 10);
+        return errno != ERANGE;
+    }
+
+    // Also sets ERANGE for subnormals which are fine.
+    return std::isfinite(std::strtod(value_->c_str(), nullptr));
 }
 
 const std::string&
@@ -287,9 +311,12 @@ Token::Type readNumber(Reader& reader, char c)
     reader.resetBuffer();
     reader.save(c); // can be either - or [0-9].
 
+    size_t digits = c == '-' ? 0 : 1;
     auto readDigits = [&] {
-        while (reader && std::isdigit(c = reader.peek()))
+        while (reader && std::isdigit(c = reader.peek())) {
             reader.save(reader.pop());
+            digits++;
+        }
     };
 
     auto readChar = [&] (char c) {
@@ -313,6 +340,11 @@ Token::Type readNumber(Reader& reader, char c)
         readDigits();
     }
 
+    if (!digits) {
+        reader.error("number without any digits <%s>", reader.buffer());
+        return type;
+    }
+
     if (readChars('e', 'E')) {
         type = Token::Float;
         readChars('+', '-');
diff --git a/src/utils/json/token.h b/src/utils/json/token.h
index 417468e..7685c60 100644
--- a/src/utils/json/token.h
+++ b/src/utils/json/token.h
@@ -39,6 +39,9 @@ struct Token
     double asFloat() const;
     const std::string& asString() const;
 
+    /** Whether the number can be represented by asInt or asFloat. */
+    bool inRange(Type type) const;
+
     std::string print() const;
 
 private:
-- 
2.43.0


From 7904e063107cfcb3964661429992770576c65e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:48 +0000
Subject: [PATCH 19/32] fix: refuse every invalid UTF-8 sequence in json
 strings

Headers of sequences longer than 4 bytes, and the end of the input, had
undefined results. Overlong sequences were accepted when escaping and
code points past U+10FFFF everywhere.
---
 src/utils/json/format.cpp | 64 ++++++++++++++++++++-------------------
 src/utils/json/token.cpp  | 14 ++++-----
 src/utils/json/utils.h    | 24 ++++++++++++++-
 3 files changed, 62 insertions(+), 40 deletions(-)

diff --git a/src/utils/json/format.cpp b/src/utils/json/format.cpp
index 9c8f743..89801ce 100644
--- a/src/utils/json/format.cpp
+++ b/src/utils/json/format.cpp
@@ -53,57 +53,59 @@ void formatFloat(Writer& writer, double value)
     format(writer, "%1.12g", value);
 }
 
-size_t escapeUnicode(Writer& writer, const std::string& value, size_t i)
+/** Decodes the code point at i and returns the number of bytes that it spans or
+    0 if it's invalid.
+ */
+size_t decodeUnicode(
+        Writer& writer, const std::string& value, size_t i, uint32_t& code)
 {
     size_t bytes = clz(~value[i]);
-    if (bytes > 4 || bytes < 2) writer.error("invalid UTF-8 header");
-    if (i + bytes > value.size()) writer.error("invalid UTF-8 encoding");
+    if (bytes > 4 || bytes < 2) {
+        writer.error("invalid UTF-8 header");
+        return 0;
+    }
 
-    size_t leftover = 8 - (bytes + 1);
-    uint32_t code = value[i] & ((1 << leftover) - 1);
+    bool valid = i + bytes <= value.size();
 
-    i++;
-    for (size_t j = 0; writer && j < (bytes - 1); ++j, ++i) {
-        if ((value[i] & 0xC0) != 0x80) writer.error("invalid UTF-8 encoding");
-        code = (code << 6) | (value[i] & 0x3F);
+    code = value[i] & ((1 << (7 - bytes)) - 1);
+    for (size_t j = 1; valid && j < bytes; ++j) {
+        valid = (value[i + j] & 0xC0) == 0x80;
+        code = (code << 6) | (value[i + j] & 0x3F);
     }
 
+    if (valid && isValidUnicode(code, bytes)) return bytes;
+
+    writer.error("invalid UTF-8 encoding");
+    return 0;
+}
+
+size_t escapeUnicode(Writer& writer, const std::string& value, size_t i)
+{
+    uint32_t code;
+    size_t bytes = decodeUnicode(writer, value, i, code);
+    if (!bytes) return i;
+
     format(writer, "\\u%04x", code);
 
-    return i - 1;
+    return i + bytes - 1;
 }
 
 size_t readUnicode(Writer& writer, const std::string& value, size_t i)
 {
-    size_t bytes = clz(~value[i]);
-    if (bytes > 4 || bytes < 2) writer.error("invalid UTF-8 header");
-    if (i + bytes > value.size()) writer.error("invalid UTF-8 encoding");
-
-    size_t leftover = 8 - (bytes + 1);
-    uint32_t code = value[i] & ((1 << leftover) - 1);
-    writer.push(value[i]);
-
-    i++;
-    for (size_t j = 0; writer && j < (bytes - 1); ++j, ++i) {
-        if ((value[i] & 0xC0) != 0x80) writer.error("invalid UTF-8 encoding");
-        code = (code << 6) | (value[i] & 0x3F);
-        writer.push(value[i]);
-    }
+    uint32_t code;
+    size_t bytes = decodeUnicode(writer, value, i, code);
+    if (!bytes) return i;
 
-    switch (bytes) {
-    case 4: if (code <= 0xFFFF) writer.error("invalid UTF-8 encoding"); break;
-    case 3: if (code <= 0x7FF) writer.error("invalid UTF-8 encoding"); break;
-    case 2: if (code <= 0x7F) writer.error("invalid UTF-8 encoding"); break;
-    }
+    writer.push(value.data() + i, bytes);
 
-    return i - 1;
+    return i + bytes - 1;
 }
 
 void formatString(Writer& writer, const std::string& value)
 {
     writer.push('"');
 
-    for (size_t i = 0; i < value.size(); ++i) {
+    for (size_t i = 0; writer && i < value.size(); ++i) {
         char c = value[i];
 
         if (c & 0x80) {
diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 271ea90..ad30fe4 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -243,7 +243,10 @@ void validateUnicode(Reader& reader, char c)
     reader.save(c);
 
     size_t bytes = clz(~c);
-    if (bytes > 4 || bytes < 2) reader.error("invalid UTF-8 header: %x", c);
+    if (bytes > 4 || bytes < 2) {
+        reader.error("invalid UTF-8 header: %x", unsigned(uint8_t(c)));
+        return;
+    }
 
     uint32_t mask = (1 << (7 - bytes)) - 1;
     uint32_t code = uint32_t(c) & mask;
@@ -254,13 +257,7 @@ void validateUnicode(Reader& reader, char c)
         code = (code << 6) | (c & 0x3F);
     }
 
-    switch (bytes) {
-    case 4: if (code > 0xFFFF) return; break;
-    case 3: if (code > 0x7FF) return; break;
-    case 2: if (code > 0x7F) return; break;
-    }
-
-    reader.error("invalid UTF-8 encoding");
+    if (!isValidUnicode(code, bytes)) reader.error("invalid UTF-8 encoding");
 }
 
 void readString(Reader& reader)
@@ -269,6 +266,7 @@ void readString(Reader& reader)
 
     while (reader) {
         char c = reader.pop();
+        if (!reader) break;
 
         if (c == '\n') {
             reader.error("invalid \\n character in a string");
diff --git a/src/utils/json/utils.h b/src/utils/json/utils.h
index 6c46988..7185fba 100644
--- a/src/utils/json/utils.h
+++ b/src/utils/json/utils.h
@@ -12,7 +12,29 @@ namespace json {
 /* BIT OPS                                                                    */
 /******************************************************************************/
 
-size_t clz(char value) { return __builtin_clz(uint32_t(value) << 24); }
+size_t clz(char value)
+{
+    // __builtin_clz is undefined for 0.
+    return value ? __builtin_clz(uint32_t(value) << 24) : 8;
+}
+
+
+/******************************************************************************/
+/* UNICODE                                                                    */
+/******************************************************************************/
+
+/** Whether the code point is the one that should be encoded over that many
+    bytes in UTF-8.
+ */
+bool isValidUnicode(uint32_t code, size_t bytes)
+{
+    switch (bytes) {
+    case 4: return code > 0xFFFF && code <= 0x10FFFF;
+    case 3: return code > 0x7FF;
+    case 2: return code > 0x7F;
+    default: return false;
+    }
+}
 
 } // namespace json
 } // namespace reflect
-- 
2.43.0


From d4a6c56807596e56ddeacb009765298bb6a6675d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:19 +0000
Subject: [PATCH 20/32] fix: write and read surrogate pairs in json strings

Code points past U+FFFF were escaped with 5 or 6 digits which read back
as another character, and pairs were read as two invalid characters.
---
 src/utils/json/format.cpp |  7 ++++
 src/utils/json/token.cpp  | 80 ++++++++++++++++++++++++++++++---------
 2 files changed, 70 insertions(+), 17 deletions(-)

diff --git a/src/utils/json/format.cpp b/src/utils/json/format.cpp
index 89801ce..f55c71c 100644
--- a/src/utils/json/format.cpp
+++ b/src/utils/json/format.cpp
@@ -85,6 +85,13 @@ size_t escapeUnicode(Writer& writer, const std::string& value, size_t i)
     size_t bytes = decodeUnicode(writer, value, i, code);
     if (!bytes) return i;
 
+    // Code points that don't fit in 4 digits are written as a surrogate pair.
+    if (code > 0xFFFF) {
+        code -= 0x10000;
+        format(writer, "\\u%04x", 0xD800 | (code >> 10));
+        code = 0xDC00 | (code & 0x3FF);
+    }
+
     format(writer, "\\u%04x", code);
 
     return i + bytes - 1;
diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index ad30fe4..9dedeb7 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -168,7 +168,7 @@ void readLiteral(Reader& reader, const char* literal)
     if (*l) reader.error("expected literal <%s>", literal);
 }
 
-void unescapeUnicode(Reader& reader)
+uint32_t readCodeUnit(Reader& reader)
 {
     uint32_t code = 0;
 
@@ -185,8 +185,12 @@ void unescapeUnicode(Reader& reader)
     }
 
     if (reader && i != 4) reader.error("\\u requires 4 hex digits", i);
-    if (!reader) return;
 
+    return code;
+}
+
+void saveCodePoint(Reader& reader, uint32_t code)
+{
     auto encode = [&] (unsigned pos, uint32_t mask, uint32_t head) {
         reader.save(((code >> (6 * pos)) & mask) | head);
     };
@@ -215,6 +219,38 @@ void unescapeUnicode(Reader& reader)
     else reflectError("code point <%u> is too big", code);
 }
 
+void readEscape(Reader& reader);
+
+void unescapeUnicode(Reader& reader)
+{
+    uint32_t code = readCodeUnit(reader);
+    if (!reader) return;
+
+    // Code points that don't fit in 4 digits are written as a surrogate pair.
+    while ((code & 0xFC00) == 0xD800 && reader.peek() == '\\') {
+        reader.pop();
+
+        if (reader.peek() != 'u') {
+            saveCodePoint(reader, code);
+            readEscape(reader);
+            return;
+        }
+        reader.pop();
+
+        uint32_t low = readCodeUnit(reader);
+        if (!reader) return;
+
+        if ((low & 0xFC00) == 0xDC00)
+            code = 0x10000 + ((code & 0x3FF) << 10 | (low & 0x3FF));
+        else {
+            saveCodePoint(reader, code);
+            code = low;
+        }
+    }
+
+    saveCodePoint(reader, code);
+}
+
 void readUnicode(Reader& reader)
 {
     if (reader.unescapeUnicode()) {
@@ -238,6 +274,29 @@ void readUnicode(Reader& reader)
     if (reader && i != 4) reader.error("\\u requires 4 hex digits", i);
 }
 
+void readEscape(Reader& reader)
+{
+    char c = reader.pop();
+
+    switch (c) {
+    case '"':
+    case '/':
+    case '\\': break;
+
+    case 'b': c = '\b'; break;
+    case 'f': c = '\f'; break;
+    case 'n': c = '\n'; break;
+    case 'r': c = '\r'; break;
+    case 't': c = '\t'; break;
+    case 'u': readUnicode(reader); return;
+    default:
+        reader.error("unknown escaped character <%c>", c);
+        return;
+    }
+
+    reader.save(c);
+}
+
 void validateUnicode(Reader& reader, char c)
 {
     reader.save(c);
@@ -280,21 +339,8 @@ void readString(Reader& reader)
 
         if (c == '"') return;
         if (c == '\\') {
-            switch(c = reader.pop()) {
-            case '"':
-            case '/':
-            case '\\': break;
-
-            case 'b': c = '\b'; break;
-            case 'f': c = '\f'; break;
-            case 'n': c = '\n'; break;
-            case 'r': c = '\r'; break;
-            case 't': c = '\t'; break;
-            case 'u': readUnicode(reader); continue;
-            default:
-                reader.error("unknown escaped character <%c>", c);
-                return;
-            }
+            readEscape(reader);
+            continue;
         }
 
         reader.save(c);
-- 
2.43.0


From b6bb2546e953daeddb4c28cd09fd70738af0e274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:26 +0000
Subject: [PATCH 21/32] fix: reset pointers when reading a json null

The null replaced the parser's handle on the pointer and left the pointer
itself as it was, or failed within an array.
---
 src/utils/json/parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/json/parser.cpp b/src/utils/json/parser.cpp
index 6d8811c..1ffcc2c 100644
--- a/src/utils/json/parser.cpp
+++ b/src/utils/json/parser.cpp
@@ -98,6 +98,7 @@ struct PointerParser : public Parser
 {
     void init(const Type* type)
     {
+        this->type = type;
         inner.init(type->pointee());
         isSmartPtr = type->is("smartPtr");
     }
@@ -108,7 +109,7 @@ struct PointerParser : public Parser
             reader.nextToken();
 
             if (isSmartPtr) ptr.call<void>("reset");
-            else ptr = inner.type->construct();
+            else ptr.assign(type->construct());
 
             return;
         }
@@ -129,6 +130,7 @@ struct PointerParser : public Parser
     }
 
 private:
+    const Type* type;
     TypeParser inner;
     bool isSmartPtr;
 };
-- 
2.43.0


From 370193bb97559e6db36f77e12623a1acb83cbcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:39 +0000
Subject: [PATCH 22/32] fix: make json printing to a stream compile

---
 src/utils/json/printer.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/json/printer.tcc b/src/utils/json/printer.tcc
index acf7704..7616028 100644
--- a/src/utils/json/printer.tcc
+++ b/src/utils/json/printer.tcc
@@ -114,7 +114,7 @@ template<typename T>
 Error print(std::ostream& stream, const T& value)
 {
     Writer writer(stream);
-    return parse(stream, value);
+    return print(writer, value);
 }
 
 template<typename T>
-- 
2.43.0


From 423a41571ea00469bb885a1b0ef91623490e226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:39 +0000
Subject: [PATCH 23/32] fix: don't read past the padding of deeply nested json

---
 src/utils/json/writer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils/json/writer.cpp b/src/utils/json/writer.cpp
index 9cd1c5e..41647ef 100644
--- a/src/utils/json/writer.cpp
+++ b/src/utils/json/writer.cpp
@@ -26,7 +26,10 @@ newline()
     if (!pretty()) return;
 
     push("\n");
-    push(spaces.c_str(), indent_ * 4);
+
+    size_t n = indent_ * 4;
+    for (; n > spaces.size(); n -= spaces.size()) push(spaces);
+    push(spaces.c_str(), n);
 }
 
 } // namespace json
-- 
2.43.0


From 47d96680b817bc208e2fd34d11ee74c8d4a65a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:39 +0000
Subject: [PATCH 24/32] fix: report floats that json can't represent

---
 src/utils/json/format.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/json/format.cpp b/src/utils/json/format.cpp
index f55c71c..c1ab8d4 100644
--- a/src/utils/json/format.cpp
+++ b/src/utils/json/format.cpp
@@ -50,6 +50,11 @@ void formatInt(Writer& writer, int64_t value)
 
 void formatFloat(Writer& writer, double value)
 {
+    if (!std::isfinite(value)) {
+        writer.error("json can't represent non-finite floats");
+        return;
+    }
+
     format(writer, "%1.12g", value);
 }
 
-- 
2.43.0


From bee035b851b5aa7eb774d0d96fe17c9030ac3d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:18 +0000
Subject: [PATCH 25/32] fix: count the lines that end with a json comment

---
 src/utils/json/token.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 9dedeb7..7e9aa46 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -149,6 +149,7 @@ char nextChar(Reader& reader)
                 reader.error("comments are not allowed");
 
             while (reader && (c = reader.pop()) != '\n') continue;
+            if (reader) reader.newline();
             continue;
         }
 
-- 
2.43.0


From 254e3524d772f0a8d19611bc17b0cb5309077c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:18 +0000
Subject: [PATCH 26/32] fix: report duplicate json aliases when printing

---
 src/utils/json/printer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/json/printer.cpp b/src/utils/json/printer.cpp
index e8fa643..ab28d59 100644
--- a/src/utils/json/printer.cpp
+++ b/src/utils/json/printer.cpp
@@ -250,8 +250,8 @@ struct ObjectPrinter : public Printer
                 isSkipEmpty = traits.skipEmpty;
             }
 
-            if (fields.count(key))
-                reflectError("duplicate json key <%s> in <%s>", key, type->id());
+            if (keys.count(alias))
+                reflectError("duplicate json key <%s> in <%s>", alias, type->id());
 
             keys[alias] = key;
             sortedKeys.push_back(alias);
-- 
2.43.0


From f457dc96aa6ff3393ae452d5de26788bcb93c29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:28 +0000
Subject: [PATCH 27/32] fix: forget json parsers and printers that couldn't be
 initialized

A parser which failed to initialize was kept and used by later calls.
---
 src/utils/json/parser.cpp  | 21 +++++++++++++++++++--
 src/utils/json/printer.cpp | 21 +++++++++++++++++++--
 2 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/utils/json/parser.cpp b/src/utils/json/parser.cpp
index 1ffcc2c..a2bb22d 100644
--- a/src/utils/json/parser.cpp
+++ b/src/utils/json/parser.cpp
@@ -337,9 +337,15 @@ struct ValueParser : public Parser
 /* GET PARSER                                                                 */
 /******************************************************************************/
 
+std::unordered_map<const Type*, const Parser*>& knownParsers()
+{
+    static std::unordered_map<const Type*, const Parser*> known;
+    return known;
+}
+
 const Parser* getParser(const Type* type)
 {
-    static std::unordered_map<const Type*, const Parser*> parsers;
+    auto& parsers = knownParsers();
 
     auto it = parsers.find(type);
     if (it != parsers.end()) return it->second;
@@ -371,7 +377,18 @@ const Parser* getParserLocked(const Type* type)
     static std::mutex mutex;
     std::lock_guard<std::mutex> guard(mutex);
 
-    return getParser(type);
+    auto& parsers = knownParsers();
+    auto it = parsers.find(type);
+    if (it != parsers.end()) return it->second;
+
+    // The parsers created along the way may refer to one which couldn't be
+    // initialized so none of them can be kept.
+    auto before = parsers;
+    try { return getParser(type); }
+    catch (...) {
+        parsers = std::move(before);
+        throw;
+    }
 }
 
 } // namespace anonymous
diff --git a/src/utils/json/printer.cpp b/src/utils/json/printer.cpp
index ab28d59..86d8952 100644
--- a/src/utils/json/printer.cpp
+++ b/src/utils/json/printer.cpp
@@ -338,9 +338,15 @@ private:
 /* GET PRINTER                                                                */
 /******************************************************************************/
 
+std::unordered_map<const Type*, const Printer*>& knownPrinters()
+{
+    static std::unordered_map<const Type*, const Printer*> known;
+    return known;
+}
+
 const Printer* getPrinter(const Type* type)
 {
-    static std::unordered_map<const Type*, const Printer*> printers;
+    auto& printers = knownPrinters();
 
     auto it = printers.find(type);
     if (it != printers.end()) return it->second;
@@ -373,7 +379,18 @@ const Printer* getPrinterLocked(const Type* type)
     static std::mutex mutex;
     std::lock_guard<std::mutex> guard(mutex);
 
-    return getPrinter(type);
+    auto& printers = knownPrinters();
+    auto it = printers.find(type);
+    if (it != printers.end()) return it->second;
+
+    // The printers created along the way may refer to one which couldn't be
+    // initialized so none of them can be kept.
+    auto before = printers;
+    try { return getPrinter(type); }
+    catch (...) {
+        printers = std::move(before);
+        throw;
+    }
 }
 
 } // namespace anonymous
-- 
2.43.0


From 78dd73526c54b77dd7ff991acdeeac5deb4e2c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:32 +0000
Subject: [PATCH 28/32] fix: print the error before aborting when stdout is not
 a terminal

---
 src/error.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/error.cpp b/src/error.cpp
index 35ddd0d..41fb58b 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -53,6 +53,7 @@ void verror(bool except, const char* file, int line, std::string msg)
     if (except) throw Error(msg);
 
     printf("%s\n", msg.c_str());
+    fflush(stdout); // abort() doesn't.
     abort();
 }
 
-- 
2.43.0


From 15a6dab0c971a73afd6ba4c50dc8c9c217801f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:50 +0000
Subject: [PATCH 29/32] fix: initialize the reference kind of an empty argument

Argument() left refType_ unset so whether an empty Value was printed as a
reference, or seen as an l-value, depended on what the memory held before.
---
 src/argument.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/argument.cpp b/src/argument.cpp
index 3682ee6..48fb072 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -43,7 +43,7 @@ std::ostream& operator<<(std::ostream& stream, Match match)
 /******************************************************************************/
 
 Argument::
-Argument() : type_(reflect::type<void>()), isConst_(false) {}
+Argument() : type_(reflect::type<void>()), refType_(RefType::Copy), isConst_(false) {}
 
 Argument::
 Argument(const Type* type, RefType refType, bool isConst) :
-- 
2.43.0


From 85609a883c3f6cdede4358753c4baeda81d8a25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:35 +0000
Subject: [PATCH 30/32] fix: name the field that is refused

emplace() takes the field before finding that its name is already used so the
error was about a field without a name.
---
 src/type.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/type.cpp b/src/type.cpp
index fa66f24..f1b4294 100644
--- a/src/type.cpp
+++ b/src/type.cpp
@@ -167,11 +167,13 @@ addField(const std::string& name, Field&& field)
                 field.print(), it->second.print(), id());
     }
 
-    auto ret = fields_.emplace(name, std::move(field));
-    if (!ret.second) {
+    auto fieldIt = fields_.find(name);
+    if (fieldIt != fields_.end()) {
         reflectError("field <%s> already exists as field <%s> in <%s>",
-                field.print(), ret.first->second.print(), id());
+                field.print(), fieldIt->second.print(), id());
     }
+
+    fields_.emplace(name, std::move(field));
 }
 
 void
-- 
2.43.0


From 0ff4dd2ec7fa25700b31d060735c4871ff097cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:54 +0000
Subject: [PATCH 31/32] fix: bind derived objects that also convert to their
 parent

---
 src/argument.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/argument.cpp b/src/argument.cpp
index 48fb072..ff2dc5a 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -107,7 +107,7 @@ isConvertibleTo(const Argument& target) const
 
     bool isExact = false;
 
-    if (type()->hasConverter(target.type())) {
+    if (!target.type()->isParentOf(type()) && type()->hasConverter(target.type())) {
         if (target.refType() != RefType::LValue) return Match::Partial;
         return Match::None;
     }
-- 
2.43.0


From 49fb1073fc5eaa46eb73c05dbf901b18367527b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:47 +0000
Subject: [PATCH 32/32] fix: initialise the numbers allocated through
 reflectAlloc

---
 src/dsl/function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsl/function.h b/src/dsl/function.h
index a7e24a1..8525091 100644
--- a/src/dsl/function.h
+++ b/src/dsl/function.h
@@ -44,7 +44,7 @@ void reflectConstructor(Type* type)
 template<typename T>
 void reflectAllocator(Type* type)
 {
-    type->addFunction("new", [] { return new T; });
+    type->addFunction("new", [] { return new T(); });
 }
 
 #define reflectAlloc()                          \
-- 
2.43.0

