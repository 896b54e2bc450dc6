From 6032f211ab425d2b691b70870ded14aa5f90534d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:14 +0000
Subject: [PATCH 01/35] fix: Declare no longer reads past an unterminated class
 name

---
 src/jnivm/internal/findclass.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jnivm/internal/findclass.cpp b/src/jnivm/internal/findclass.cpp
index dd71499..0b44ee1 100644
--- a/src/jnivm/internal/findclass.cpp
+++ b/src/jnivm/internal/findclass.cpp
@@ -108,6 +108,10 @@ void jnivm::Declare(JNIEnv *env, const char *signature) {
 			cur++) {
 		if (*cur == 'L') {
 			auto cend = std::find(cur, end, ';');
+			if(cend == end) {
+				// Unterminated class name, nothing to declare
+				break;
+			}
 			std::string classpath(cur + 1, cend);
 			InternalFindClass(env, classpath.data());
 			cur = cend;
-- 
2.43.0


From 5ab6d0be594b4c253af96c8ac1fd842bdd5cc9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:14 +0000
Subject: [PATCH 02/35] fix: SkipJNIType never skips past the end of the
 signature

---
 src/jnivm/internal/skipJNIType.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jnivm/internal/skipJNIType.cpp b/src/jnivm/internal/skipJNIType.cpp
index adec7d6..a962372 100644
--- a/src/jnivm/internal/skipJNIType.cpp
+++ b/src/jnivm/internal/skipJNIType.cpp
@@ -2,6 +2,9 @@
 #include <algorithm>
 
 const char * jnivm::SkipJNIType(const char *cur, const char *end) {
+    if(cur == end) {
+            return end;
+    }
     switch (*cur) {
     case 'V':
             // Void has size 0 ignore it
@@ -20,6 +23,9 @@ const char * jnivm::SkipJNIType(const char *cur, const char *end) {
             break;
     case 'L':
             cur = std::find(cur, end, ';');
+            if(cur == end) {
+                    return end;
+            }
             break;
     case '(':
             return SkipJNIType(cur + 1, end);
-- 
2.43.0


From c978895ba3626641a6beea6f14e0e36cab17a628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:14 +0000
Subject: [PATCH 03/35] fix: ParseJNIType stays within a malformed signature

---
 src/jnivm/internal/codegen/parseJNIType.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jnivm/internal/codegen/parseJNIType.cpp b/src/jnivm/internal/codegen/parseJNIType.cpp
index 4ca4667..03e22a9 100644
--- a/src/jnivm/internal/codegen/parseJNIType.cpp
+++ b/src/jnivm/internal/codegen/parseJNIType.cpp
@@ -66,6 +66,9 @@ const char *jnivm::ParseJNIType(const char *cur, const char *end, std::string &t
 		}
 		break;
 	case '[':
+		if(last + 1 == end) {
+			break;
+		}
 		cur = ParseJNIType(last + 1, end, type);
 		if(!JNIVM_FAKE_JNI_SYNTAX) {
 			type = "std::shared_ptr<jnivm::Array<" + ( type.rfind("std::shared_ptr<" , 0) == 0 && type[type.length() - 1] == '>' ? type.substr(16, type.length() - 17) : type) + ">>";
@@ -122,7 +125,8 @@ const char *jnivm::ParseJNIType(const char *cur, const char *end, std::string &t
 																"::") +
 						">";
 		}
-		cur = cend;
+		// The caller continues with the character after the returned one
+		cur = cend == end ? end - 1 : cend;
 		break;
 	}
 	return cur;
-- 
2.43.0


From df34abf0b0465e3242d5da3a6e10667b911f8f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:46 +0000
Subject: [PATCH 04/35] fix: generating sources with long lines no longer
 overflows the stack

---
 src/jnivm/internal/codegen/class.cpp     |  7 ++++---
 src/jnivm/internal/codegen/indent.h      | 16 ++++++++++++++++
 src/jnivm/internal/codegen/namespace.cpp |  6 +++---
 3 files changed, 23 insertions(+), 6 deletions(-)
 create mode 100644 src/jnivm/internal/codegen/indent.h

diff --git a/src/jnivm/internal/codegen/class.cpp b/src/jnivm/internal/codegen/class.cpp
index 717c9a5..c00544c 100644
--- a/src/jnivm/internal/codegen/class.cpp
+++ b/src/jnivm/internal/codegen/class.cpp
@@ -1,6 +1,7 @@
 #include <jnivm/class.h>
 #include <jnivm/method.h>
 #include <jnivm/internal/codegen/parseJNIType.h>
+#include "indent.h"
 #include <sstream>
 #include <regex>
 using namespace jnivm;
@@ -24,21 +25,21 @@ std::string Class::GenerateHeader(std::string scope) {
 	for (auto &cl : classes) {
 		auto sub = cl->GeneratePreDeclaration();
 		if(!sub.empty()) {
-			ss << std::regex_replace(sub, std::regex("(^|\n)([^\n]+)"), "$1    $2");
+			ss << IndentLines(sub);
 			ss << "\n";
 		}
 	}
 	for (auto &field : fields) {
 		auto sub = field->GenerateHeader();
 		if(!sub.empty()) {
-			ss << std::regex_replace(sub, std::regex("(^|\n)([^\n]+)"), "$1    $2");
+			ss << IndentLines(sub);
 			ss << "\n";
 		}
 	}
 	for (auto &method : methods) {
 		auto sub = method->GenerateHeader(name);
 		if(!sub.empty()) {
-			ss << std::regex_replace(sub, std::regex("(^|\n)([^\n]+)"), "$1    $2");
+			ss << IndentLines(sub);
 			ss << "\n";
 		}
 	}
diff --git a/src/jnivm/internal/codegen/indent.h b/src/jnivm/internal/codegen/indent.h
new file mode 100644
index 0000000..7a4a8a9
--- /dev/null
+++ b/src/jnivm/internal/codegen/indent.h
@@ -0,0 +1,16 @@
+#pragma once
+#include <string>
+
+namespace jnivm {
+	// Indents every non empty line by one level, std::regex_replace would need a stack as deep as the longest line
+	inline std::string IndentLines(const std::string &text) {
+		std::string res;
+		for (size_t i = 0; i < text.length(); i++) {
+			if (text[i] != '\n' && (i == 0 || text[i - 1] == '\n')) {
+				res += "    ";
+			}
+			res += text[i];
+		}
+		return res;
+	}
+}
diff --git a/src/jnivm/internal/codegen/namespace.cpp b/src/jnivm/internal/codegen/namespace.cpp
index 80ac064..9087c05 100644
--- a/src/jnivm/internal/codegen/namespace.cpp
+++ b/src/jnivm/internal/codegen/namespace.cpp
@@ -1,7 +1,7 @@
 #include <jnivm/internal/codegen/namespace.h>
 #include <jnivm/class.h>
+#include "indent.h"
 #include <sstream>
-#include <regex>
 using namespace jnivm;
 
 std::string Namespace::GenerateHeader(std::string scope) {
@@ -43,7 +43,7 @@ std::string Namespace::GeneratePreDeclaration() {
 			} else {
 				ss << "\n";
 			}
-			ss << (indent ? std::regex_replace(sub, std::regex("(^|\n)([^\n]+)"), "$1    $2") : sub);
+			ss << (indent ? IndentLines(sub) : sub);
 		}
 	}
 	for (auto &np : namespaces) {
@@ -57,7 +57,7 @@ std::string Namespace::GeneratePreDeclaration() {
 			} else {
 				ss << "\n";
 			}
-			ss << (indent ? std::regex_replace(sub, std::regex("(^|\n)([^\n]+)"), "$1    $2") : sub);
+			ss << (indent ? IndentLines(sub) : sub);
 		}
 	}
 	if (!empty && indent) {
-- 
2.43.0


From d9c9fdfef4cf7e6a74ef9eb0c9b4d8a5fa0bf010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:46 +0000
Subject: [PATCH 05/35] fix: a weak reference to a dead object behaves as null
 in queries

---
 src/jnivm/internal/array.cpp  |  6 ++++--
 src/jnivm/internal/string.cpp | 14 ++++++++------
 src/jnivm/vm.cpp              |  5 +++--
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/jnivm/internal/array.cpp b/src/jnivm/internal/array.cpp
index d220630..9b7d96e 100644
--- a/src/jnivm/internal/array.cpp
+++ b/src/jnivm/internal/array.cpp
@@ -4,7 +4,8 @@
 using namespace jnivm;
 
 jsize jnivm::GetArrayLength(JNIEnv *env, jarray a) {
-    return a ? JNITypes<std::shared_ptr<Array<void>>>::JNICast(ENV::FromJNIEnv(env), a)->getSize() : 0;
+    auto ja = JNITypes<std::shared_ptr<Array<void>>>::JNICast(ENV::FromJNIEnv(env), a);
+    return ja ? ja->getSize() : 0;
 }
 jobjectArray jnivm::NewObjectArray(JNIEnv * env, jsize length, jclass c, jobject init) {
     auto cl0 = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), c);
@@ -38,7 +39,8 @@ T *jnivm::GetArrayElements(JNIEnv *env, typename JNITypes<T>::Array a, jboolean
     if (iscopy) {
         *iscopy = false;
     }
-    return a ? JNITypes<std::shared_ptr<Array<T>>>::JNICast(ENV::FromJNIEnv(env), a)->getArray() : nullptr;
+    auto ja = JNITypes<std::shared_ptr<Array<T>>>::JNICast(ENV::FromJNIEnv(env), a);
+    return ja ? ja->getArray() : nullptr;
 }
 
 template <class T>
diff --git a/src/jnivm/internal/string.cpp b/src/jnivm/internal/string.cpp
index 0504e7b..b6a3c80 100644
--- a/src/jnivm/internal/string.cpp
+++ b/src/jnivm/internal/string.cpp
@@ -14,8 +14,8 @@ jstring jnivm::NewString(JNIEnv *env, const jchar * str, jsize size) {
     return JNITypes<std::shared_ptr<String>>::ToJNIType(ENV::FromJNIEnv(env), std::make_shared<String>(ss.str()));
 };
 jsize jnivm::GetStringLength(JNIEnv *env, jstring str) {
-    if(str) {
-        std::shared_ptr<std::string> cstr = JNITypes<std::shared_ptr<String>>::JNICast(ENV::FromJNIEnv(env), str);
+    std::shared_ptr<std::string> cstr = JNITypes<std::shared_ptr<String>>::JNICast(ENV::FromJNIEnv(env), str);
+    if(cstr) {
         size_t count = 0;
         jsize length = 0;
         auto cur = cstr->data(), end = cur + cstr->length();
@@ -33,7 +33,7 @@ jsize jnivm::GetStringLength(JNIEnv *env, jstring str) {
     }
 };
 const jchar *jnivm::GetStringChars(JNIEnv * env, jstring str, jboolean * copy) {
-    if(str) {
+    if(JNITypes<std::shared_ptr<String>>::JNICast(ENV::FromJNIEnv(env), str)) {
         if(copy) {
             *copy = true;
         }
@@ -54,8 +54,9 @@ jstring jnivm::NewStringUTF(JNIEnv * env, const char *str) {
     return JNITypes<std::shared_ptr<String>>::ToJNIType(ENV::FromJNIEnv(env), std::make_shared<String>(str ? str : ""));
 };
 jsize jnivm::GetStringUTFLength(JNIEnv *env, jstring str) {
-    if(str) {
-        auto length = JNITypes<std::shared_ptr<String>>::JNICast(ENV::FromJNIEnv(env), str)->length();
+    auto cstr = JNITypes<std::shared_ptr<String>>::JNICast(ENV::FromJNIEnv(env), str);
+    if(cstr) {
+        auto length = cstr->length();
         if(length > static_cast<size_t>(std::numeric_limits<jsize>::max())) {
             throw std::runtime_error("String to long, to fit in jsize");
         } else {
@@ -67,7 +68,8 @@ jsize jnivm::GetStringUTFLength(JNIEnv *env, jstring str) {
 const char *jnivm::GetStringUTFChars(JNIEnv * env, jstring str, jboolean *copy) {
     if (copy)
         *copy = false;
-    return str ? JNITypes<std::shared_ptr<String>>::JNICast(ENV::FromJNIEnv(env), str)->data() : "";
+    auto cstr = JNITypes<std::shared_ptr<String>>::JNICast(ENV::FromJNIEnv(env), str);
+    return cstr ? cstr->data() : "";
 };
 void jnivm::ReleaseStringUTFChars(JNIEnv * env, jstring str, const char * cstr) {
     // Never copied, never free
diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index b27b9d2..3dc10bc 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -239,10 +239,11 @@ jobject AllocObject(JNIEnv *env, jclass cl) {
 };
 
 jclass GetObjectClass(JNIEnv *env, jobject jo) {
-	return jo ? JNITypes<std::shared_ptr<jnivm::Class>>::ToJNIType(ENV::FromJNIEnv(env), JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), jo)->getClassInternal(ENV::FromJNIEnv(env))) : env->FindClass("Invalid");
+	auto obj = JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), jo);
+	return obj ? JNITypes<std::shared_ptr<jnivm::Class>>::ToJNIType(ENV::FromJNIEnv(env), obj->getClassInternal(ENV::FromJNIEnv(env))) : env->FindClass("Invalid");
 };
 jboolean IsInstanceOf(JNIEnv *env, jobject jo, jclass cl) {
-	return jo && IsAssignableFrom(env, GetObjectClass(env, jo), cl);
+	return !IsSameObject(env, jo, nullptr) && IsAssignableFrom(env, GetObjectClass(env, jo), cl);
 };
 
 #include "internal/method.h"
-- 
2.43.0


From 313fa1a3d30a8e98dbf91c1de7df89dd76ff7f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:21 +0000
Subject: [PATCH 06/35] fix: virtual and non-virtual calls find inherited
 overrides

---
 src/jnivm/internal/method.cpp | 53 ++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index a9fe678..4f50ed6 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -165,27 +165,29 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
     return nullptr;
 }
 
-static Method* findNonVirtualOverload(Class*cl, Method*mid) {
+// Finds the implementation of mid in cl or, depth first, in its base classes
+static Method* findOverload(jnivm::ENV *env, Class*cl, Method*mid) {
     if(!cl) {
-        return mid;
-    }
-    auto res = std::find_if(cl->methods.begin(), cl->methods.end(), [mid](auto&& m) {
-        return !m->_static && mid->name == m->name && mid->signature == m->signature && m->nativehandle;
-    });
-    if(res != cl->methods.end()) {
-        return res->get();
-    } else {
         return nullptr;
     }
-}
-
-static Method* findVirtualOverload(jnivm::ENV *env, Class*cl, Method*mid) {
-    auto r = findNonVirtualOverload(cl, mid);
-    if(r != nullptr) {
-        return r;
-    } else {
-        return findVirtualOverload(env, mid->GetBaseClasses(env)[0].get(), mid);
+    {
+        std::lock_guard<std::mutex> lock(cl->mtx);
+        auto res = std::find_if(cl->methods.begin(), cl->methods.end(), [mid](auto&& m) {
+            return !m->_static && mid->name == m->name && mid->signature == m->signature && m->nativehandle;
+        });
+        if(res != cl->methods.end()) {
+            return res->get();
+        }
     }
+    if(cl->baseclasses) {
+        for(auto&& i : cl->baseclasses(env)) {
+            auto res = findOverload(env, i.get(), mid);
+            if(res) {
+                return res;
+            }
+        }
+    }
+    return nullptr;
 }
 
 template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject obj, jmethodID id, jvalue *param) {
@@ -196,9 +198,13 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
     if(!id)
         LOG("JNIVM", "CallMethod field is null");
 #endif
+    auto o = JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), obj);
+    auto cl = o ? o->getClassInternal(ENV::FromJNIEnv(env)) : nullptr;
+    auto overload = mid ? findOverload(ENV::FromJNIEnv(env), cl.get(), mid) : nullptr;
+    if (overload) {
+        mid = overload;
+    }
     if (mid && mid->nativehandle) {
-        auto cl = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), env->GetObjectClass(obj));
-        mid = findVirtualOverload(ENV::FromJNIEnv(env), cl.get(), mid);
 #ifdef JNI_TRACE
         LOG("JNIVM", "Call Member Function Class=`%s` Method=`%s` Signature=`%s`", cl ? cl->nativeprefix.data() : "???", mid->name.data(), mid->signature.data());
 #endif
@@ -215,7 +221,6 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
         }
     } else {
 #ifdef JNI_TRACE
-        auto cl = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), env->GetObjectClass(obj));
         LOG("JNIVM", "Call Unknown Member Function Class=`%s` Method=`%s` Signature=`%s`", cl ? cl->nativeprefix.data() : "???", mid ? mid->name.data() : "???", mid ? mid->signature.data() : "???");
 #endif
         return defaultVal<T>(ENV::FromJNIEnv(env), mid ? mid->signature : "");
@@ -258,12 +263,15 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
     if(!id)
         LOG("JNIVM", "CallMethod field is null");
 #endif
+    auto clz = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), cl); 
+    auto overload = mid ? findOverload(ENV::FromJNIEnv(env), clz.get(), mid) : nullptr;
+    if (overload) {
+        mid = overload;
+    }
     if (mid && mid->nativehandle) {
-        auto clz = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), cl); 
 #ifdef JNI_TRACE
         LOG("JNIVM", "Call NonVirtual Member Function Class=`%s` Method=`%s` Signature=`%s`", clz ? clz->nativeprefix.data() : "???", mid->name.data(), mid ? mid->signature.data() : "???");
 #endif
-        mid = findNonVirtualOverload(clz.get(), mid);
         try {
             return static_cast<jnivm::impl::MethodHandleBase<T>*>(mid->nativehandle.get())->NonVirtualInstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
         } catch (...) {
@@ -277,7 +285,6 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
         }
     } else {
 #ifdef JNI_TRACE
-        auto clz = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), cl);
         LOG("JNIVM", "Call Unknown NonVirtual Member Function Class=`%s` Method=`%s` Signature=`%s`", clz ? clz->nativeprefix.data() : "???", mid ? mid->name.data() : "???", mid ? mid->signature.data() : "???");
 #endif
         return defaultVal<T>(ENV::FromJNIEnv(env), mid ? mid->signature : "");
-- 
2.43.0


From eb73024b2b677cec7b728f0b7de074b1279fd853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:34 +0000
Subject: [PATCH 07/35] fix: new primitive arrays do not leak their initial
 elements

---
 src/jnivm/internal/array.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jnivm/internal/array.cpp b/src/jnivm/internal/array.cpp
index 9b7d96e..8052f05 100644
--- a/src/jnivm/internal/array.cpp
+++ b/src/jnivm/internal/array.cpp
@@ -1,4 +1,5 @@
 #include <jnivm/class.h>
+#include <algorithm>
 #include "array.hpp"
 
 using namespace jnivm;
@@ -29,7 +30,8 @@ void jnivm::SetObjectArrayElement(JNIEnv *env, jobjectArray a, jsize i, jobject
 }
 
 template <class T> typename JNITypes<T>::Array jnivm::NewArray(JNIEnv * env, jsize length) {
-    auto arr = length ? std::make_shared<Array<T>>(new T[length] {0}, length) : std::make_shared<Array<T>>(0);
+    auto arr = std::make_shared<Array<T>>(length);
+    std::fill(arr->getArray(), arr->getArray() + length, T(0));
     arr->clazz = InternalFindClass(ENV::FromJNIEnv(env), (std::string("[") + JNITypes<T>::GetJNISignature(ENV::FromJNIEnv(env))).data());
     return JNITypes<std::shared_ptr<Array<T>>>::ToJNIType(ENV::FromJNIEnv(env), arr);
 }
-- 
2.43.0


From c37a46e09713998e75063bd22698a8d11a375279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:34 +0000
Subject: [PATCH 08/35] fix: object array elements are accessed correctly
 through any base type

Elements were stored as pointers to the element type, but views two or more
base classes up read and wrote them as pointers to a class in between.
Element types with more than one base class did not compile.
---
 include/jnivm/array.h | 69 ++++++++++++++-----------------------------
 1 file changed, 22 insertions(+), 47 deletions(-)

diff --git a/include/jnivm/array.h b/include/jnivm/array.h
index d8782ad..0958fe2 100644
--- a/include/jnivm/array.h
+++ b/include/jnivm/array.h
@@ -164,14 +164,27 @@ namespace jnivm {
             }
         };
 
+        // Every object array stores std::shared_ptr<Object>, whatever its element type,
+        // since any of its base types may be used to access the same elements
         template<>
         class Array<Object> : public virtual Array<void> {
+        protected:
+            // true if val can be an element of this array
+            virtual bool accepts(const Object* val) const {
+                return true;
+            }
+            std::shared_ptr<Object>& element(jint i) const {
+                return ((std::shared_ptr<Object>*) const_cast<void*>(getArray()))[i];
+            }
         public:
             virtual std::shared_ptr<Object> Get(jint i, array_type_t<Object>) const {
-                return ((std::shared_ptr<Object>*) getArray())[i];
+                return element(i);
             }
             virtual void Set(jint i, const std::shared_ptr<Object>& val) {
-                ((std::shared_ptr<Object>*) getArray())[i] = val;
+                if(val && !accepts(val.get())) {
+                    throw std::runtime_error("Class Type Exception");
+                }
+                element(i) = val;
             }
         public:
             Array() : Array<void>(nullptr, 0) {}
@@ -194,15 +207,15 @@ namespace jnivm {
         class Array<Y, void, false> : public virtual Y::template ArrayBaseType<Y> {
         public:
             virtual std::shared_ptr<Y> Get(jint i, array_type_t<Y>) const {
-                return ((std::shared_ptr<Y>*) Array<void>::getArray())[i];
+                return std::dynamic_pointer_cast<Y>(Array<Object>::element(i));
             }
             virtual void Set(jint i, const std::shared_ptr<Y>& val) {
-                ((std::shared_ptr<Y>*) Array<void>::getArray())[i] = val;
+                Array<Object>::Set(i, val);
             }
         public:
             //using T = std::shared_ptr<Y>;
             //using Type = T;
-            Array(jsize length) : Array<void>(new std::shared_ptr<Y>[length], length) {}
+            Array(jsize length) : Array<void>(new std::shared_ptr<Object>[length], length) {}
             Array() : Array<void>(nullptr, 0) {}
 
             inline Arrayguard<Y, false> operator[](jint i) {
@@ -211,52 +224,14 @@ namespace jnivm {
             inline const Arrayguard<Y, true> operator[](jint i) const {
                 return { *this, i };
             }
-            virtual ~Array() {
-                if(Array<void>::getArray()) {
-                    delete[] (std::shared_ptr<Y>*)Array<void>::getArray();
-                    Array<void>::setArray(nullptr);
-                }
-            }
-        };
-
-        template<class Y, class Z>
-        class Array<Y, Z, false> : public virtual Array<Y, void, false>/* , public virtual Y::template ArrayBaseType<Z> */ {
-        public:
-            virtual std::shared_ptr<Y> Get(jint i, array_type_t<Y>) const override {
-                return ((std::shared_ptr<Z>*) Array<void>::getArray())[i];
-            }
-            virtual void Set(jint i, const std::shared_ptr<Y>& val) override {
-                std::shared_ptr<Z> nval(val, dynamic_cast<Z*>(val.get()));
-                if(val && !nval) {
-                    throw std::runtime_error("Class Type Exception");
-                }
-                ((std::shared_ptr<Z>*) Array<void>::getArray())[i] = nval;
-            }
-        };
-
-        template<class T, class Base, class...others> class ArrayBaseImpl;
-
-        template<class T, class...Base>
-        class ArrayBaseImpl<T, std::tuple<Base...>> : public virtual Array<Base, void>... {
-            
         };
 
-        template<class Z, class Base, class Y, class...others> class ArrayBaseImpl<Z, Base, Y, others...> : public ArrayBaseImpl<Z, Base, others...> {
-            virtual std::shared_ptr<Y> Get(jint i, array_type_t<Y>) const override {
-                return ((std::shared_ptr<Z>*) Array<void>::getArray())[i];
-            }
-            virtual void Set(jint i, const std::shared_ptr<Y>& val) override {
-                std::shared_ptr<Z> nval(val, dynamic_cast<Z*>(val.get()));
-                if(val && !nval) {
-                    throw std::runtime_error("Class Type Exception");
-                }
-                ((std::shared_ptr<Z>*) Array<void>::getArray())[i] = nval;
+        template<class T, class...Base> class ArrayBase : public virtual Array<Base>... {
+        protected:
+            bool accepts(const Object* val) const override {
+                return dynamic_cast<const T*>(val) != nullptr;
             }
         };
-
-        template<class T, class...Y> class ArrayBase : public ArrayBaseImpl<T, std::tuple<Y...>, Y...> {
-            
-        };
     }
 
     template<class T> using Array = impl::Array<typename remove_shared<T>::Type>;
-- 
2.43.0


From 4927e3c8adde5fe14b4f5ae40f58c71f2caf73ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:34 +0000
Subject: [PATCH 09/35] fix: NewObjectArray stores the initial object, not the
 reference to it

---
 src/jnivm/internal/array.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jnivm/internal/array.cpp b/src/jnivm/internal/array.cpp
index 8052f05..28fa0a4 100644
--- a/src/jnivm/internal/array.cpp
+++ b/src/jnivm/internal/array.cpp
@@ -15,9 +15,9 @@ jobjectArray jnivm::NewObjectArray(JNIEnv * env, jsize length, jclass c, jobject
     // auto arr = std::make_shared<Array<Object>>(new std::shared_ptr<Object>[length], length);
     auto arr = cl->InstantiateArray ? cl->InstantiateArray(ENV::FromJNIEnv(env), length) : std::make_shared<Array<Object>>(length);
     arr->clazz = std::move(cl);
-    if(init) {
+    if(auto val = JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), init)) {
         for (jsize i = 0; i < length; i++) {
-            (*arr)[i] = (*(Object*)init).shared_from_this();
+            (*arr)[i] = val;
         }
     }
     return JNITypes<std::shared_ptr<Array<Object>>>::ToJNIType(ENV::FromJNIEnv(env), arr);
-- 
2.43.0


From de16fd69ffe16bed4fb5394f83409e12186559a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:27 +0000
Subject: [PATCH 10/35] fix: describing or rethrowing a Throwable without
 native exception does not crash

---
 include/jnivm/method.h | 3 +++
 src/jnivm/vm.cpp       | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/include/jnivm/method.h b/include/jnivm/method.h
index bbba0f7..3f0b927 100644
--- a/include/jnivm/method.h
+++ b/include/jnivm/method.h
@@ -138,6 +138,9 @@ template<class T, class... param> jvalue jnivm::Method::j2invoke(JNIEnv &env, T
         ret = jinvoke(*ENV::FromJNIEnv(&env), cl, args);
     }
     if((ENV::FromJNIEnv(&env))->current_exception) {
+        if(!(ENV::FromJNIEnv(&env))->current_exception->except) {
+            throw std::runtime_error("Exception without Message was thrown");
+        }
         std::rethrow_exception((ENV::FromJNIEnv(&env))->current_exception->except);
     }
     return ret;
diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 3dc10bc..473a665 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -99,6 +99,10 @@ jthrowable ExceptionOccurred(JNIEnv * env) {
 };
 void ExceptionDescribe(JNIEnv *env) {
 	if((ENV::FromJNIEnv(env))->current_exception) {
+		if(!(ENV::FromJNIEnv(env))->current_exception->except) {
+			LOG("JNIVM", "Exception without Message was thrown");
+			return;
+		}
 		try {
 			std::rethrow_exception((ENV::FromJNIEnv(env))->current_exception->except);
 		} catch (const std::exception& ex) {
-- 
2.43.0


From dcab5af9ed4c254692da0f677873cad60748438a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:30 +0000
Subject: [PATCH 11/35] fix: registering a native method again replaces the
 earlier one

---
 src/jnivm/vm.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 473a665..687d793 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -6,6 +6,7 @@
 #include <jnivm/internal/findclass.h>
 #include <jnivm/internal/jValuesfromValist.h>
 #include <jnivm/internal/codegen/namespace.h>
+#include <algorithm>
 #include <locale>
 #include <sstream>
 #include <climits>
@@ -271,11 +272,18 @@ jint RegisterNatives(JNIEnv *env, jclass c, const JNINativeMethod *method, jint
 			ss << "Class \"" << clazz->nativeprefix << "\" registred native method: " << method->name << " signature: " << method->signature;
 			LOG("JNIVM", "%s", ss.str().data());
 #endif
-			auto m = std::make_shared<Method>();
-			m->name = method->name;
-			m->signature = method->signature;
-			m->native = method->fnPtr;
-			clazz->methods.push_back(m);
+			auto known = std::find_if(clazz->methods.begin(), clazz->methods.end(), [method](auto&& m) {
+				return m->native && m->name == method->name && m->signature == method->signature;
+			});
+			if(known != clazz->methods.end()) {
+				(*known)->native = method->fnPtr;
+			} else {
+				auto m = std::make_shared<Method>();
+				m->name = method->name;
+				m->signature = method->signature;
+				m->native = method->fnPtr;
+				clazz->methods.push_back(m);
+			}
 			method++;
 		}
 	}
-- 
2.43.0


From f120417d409acc529dd7424be35458f5b5e88afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:01 +0000
Subject: [PATCH 12/35] fix: hooking a method does not change a native method
 of the same name and signature

---
 include/jnivm/hookManager.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/jnivm/hookManager.h b/include/jnivm/hookManager.h
index e489f96..5c2e47f 100644
--- a/include/jnivm/hookManager.h
+++ b/include/jnivm/hookManager.h
@@ -49,7 +49,7 @@ namespace jnivm {
             auto ccl =
                     std::find_if(cl->methods.begin(), cl->methods.end(),
                                             [&id, &ssig](std::shared_ptr<Method> &m) {
-                                                return m->_static == isStatic && m->name == id && m->signature == ssig;
+                                                return m->_static == isStatic && !m->native && m->name == id && m->signature == ssig;
                                             });
             std::shared_ptr<Method> method;
             if (ccl != cl->methods.end()) {
@@ -70,7 +70,7 @@ namespace jnivm {
             auto ccl =
                     std::find_if(cl->methods.begin(), cl->methods.end(),
                                             [&id, &ssig](std::shared_ptr<Method> &m) {
-                                                return m->_static == isStatic && m->name == id && m->signature == ssig;
+                                                return m->_static == isStatic && !m->native && m->name == id && m->signature == ssig;
                                             });
             std::shared_ptr<Method> method;
             if (ccl != cl->methods.end()) {
-- 
2.43.0


From 790bcea299842bf7d433bed4f6dc94d99152fe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:59 +0000
Subject: [PATCH 13/35] fix: classes are looked up and declared under one lock

---
 include/jnivm/vm.h               | 2 ++
 src/jnivm/internal/findclass.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/jnivm/vm.h b/include/jnivm/vm.h
index 0e8a3e3..4a90648 100644
--- a/include/jnivm/vm.h
+++ b/include/jnivm/vm.h
@@ -61,6 +61,8 @@ namespace jnivm {
         std::unordered_map<std::string, std::shared_ptr<Class>> classes;
 
         std::mutex mtx;
+        // Guards the class tables (np, classes and nested classes), nothing else is locked while it is held
+        std::mutex classmtx;
         // Stores all global references
         std::vector<std::shared_ptr<Object>> globals;
         // Stores all classes by c++ typeid
diff --git a/src/jnivm/internal/findclass.cpp b/src/jnivm/internal/findclass.cpp
index 0b44ee1..958c33a 100644
--- a/src/jnivm/internal/findclass.cpp
+++ b/src/jnivm/internal/findclass.cpp
@@ -2,6 +2,7 @@
 #include <jnivm/env.h>
 #include <jnivm/jnitypes.h>
 #include <cstring>
+#include <mutex>
 #include "log.h"
 
 std::shared_ptr<jnivm::Class> jnivm::InternalFindClass(ENV *env, const char *name, bool returnZero, bool trace) {
@@ -13,6 +14,7 @@ std::shared_ptr<jnivm::Class> jnivm::InternalFindClass(ENV *env, const char *nam
 		LOG("JNIVM", "FindClass %s", name);
 	}
 #endif
+	std::lock_guard<std::mutex> lock(vm->classmtx);
 	std::shared_ptr<Class> curc = nullptr;
 #ifdef JNI_DEBUG
 	if(name[0] != '[') {
-- 
2.43.0


From 00142380355eab19dfdbf0e49ac8df90a4f9cc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:59 +0000
Subject: [PATCH 14/35] fix: converting an object in several threads for the
 first time does not race

---
 include/jnivm/jnitypes.h | 11 ++++++++---
 include/jnivm/vm.h       |  3 ++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/jnivm/jnitypes.h b/include/jnivm/jnitypes.h
index 473101e..3fc7d5b 100644
--- a/include/jnivm/jnitypes.h
+++ b/include/jnivm/jnitypes.h
@@ -300,9 +300,14 @@ template<class T, class B, class orgtype> template<class Y> B jnivm::JNITypesObj
     
     std::shared_ptr<Object> obj(p, p.get());
     if(obj) {
-        auto clazz = obj->clazz.lock();
-        if(!clazz) {
-            obj->clazz = JNITypesObjectBase<Y, B>::GetClass(env);
+        {
+            // Other threads may convert the same object
+            std::lock_guard<std::mutex> lock(env->GetVM()->classmtx);
+            if(obj->clazz.expired()) {
+                if(auto clazz = JNITypesObjectBase<Y, B>::GetClass(env)) {
+                    obj->clazz = clazz;
+                }
+            }
         }
         auto ref = (B)obj.get();
         env->localframe.front().push_back(std::move(obj));
diff --git a/include/jnivm/vm.h b/include/jnivm/vm.h
index 4a90648..fdecfa0 100644
--- a/include/jnivm/vm.h
+++ b/include/jnivm/vm.h
@@ -61,7 +61,8 @@ namespace jnivm {
         std::unordered_map<std::string, std::shared_ptr<Class>> classes;
 
         std::mutex mtx;
-        // Guards the class tables (np, classes and nested classes), nothing else is locked while it is held
+        // Guards the class tables (np, classes and nested classes) and the late assignment of an object's class,
+        // nothing else is locked while it is held
         std::mutex classmtx;
         // Stores all global references
         std::vector<std::shared_ptr<Object>> globals;
-- 
2.43.0


From 3013d37445cced293a404caa39dad35c9f017cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:59 +0000
Subject: [PATCH 15/35] fix: constructing an unknown method is safe in several
 threads

---
 src/jnivm/internal/method.cpp | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index 4f50ed6..c0b2761 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -10,6 +10,15 @@ jmethodID jnivm::GetMethodID(JNIEnv *env, jclass cl, const char *str0, const cha
     std::string sname = str0 ? str0 : "";
     std::string ssig = str1 ? str1 : "";
     auto cur = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), cl);
+    // Requires the lock of the class
+    auto find = [&]() -> std::shared_ptr<Method> {
+        auto ccl =
+                std::find_if(cur->methods.begin(), cur->methods.end(),
+                                        [&sname, &ssig](std::shared_ptr<Method> &namesp) {
+                                            return namesp->_static == isStatic && AllowNative == (bool)namesp->native && namesp->name == sname && namesp->signature == ssig;
+                                        });
+        return ccl != cur->methods.end() ? *ccl : nullptr;
+    };
     if(cur) {
         // Rewrite init to Static external function
         if(!isStatic && sname == "<init>") {
@@ -26,14 +35,7 @@ jmethodID jnivm::GetMethodID(JNIEnv *env, jclass cl, const char *str0, const cha
         else {
             std::lock_guard<std::mutex> lock(cur->mtx);
             std::string &classname = cur->name;
-            auto ccl =
-                    std::find_if(cur->methods.begin(), cur->methods.end(),
-                                            [&sname, &ssig](std::shared_ptr<Method> &namesp) {
-                                                return namesp->_static == isStatic && AllowNative == (bool)namesp->native && namesp->name == sname && namesp->signature == ssig;
-                                            });
-            if (ccl != cur->methods.end()) {
-                next = *ccl;
-            }
+            next = find();
         }
     } else {
 #ifdef JNI_DEBUG
@@ -59,16 +61,23 @@ jmethodID jnivm::GetMethodID(JNIEnv *env, jclass cl, const char *str0, const cha
 #endif
             return nullptr;
         }
-        next = std::make_shared<Method>();
+        auto created = std::make_shared<Method>();
+        created->name = sname;
+        created->signature = ssig;
+        created->_static = isStatic;
         if(cur) {
-            cur->methods.push_back(next);
+            std::lock_guard<std::mutex> lock(cur->mtx);
+            // Another thread may have constructed it in the meantime
+            next = find();
+            if(!next) {
+                next = created;
+                cur->methods.push_back(next);
+            }
         } else {
+            next = created;
             // For Debugging purposes without valid parent class
             JNITypes<std::shared_ptr<Method>>::ToJNIType(ENV::FromJNIEnv(env), next);
         }
-        next->name = std::move(sname);
-        next->signature = std::move(ssig);
-        next->_static = isStatic;
 #ifdef JNI_DEBUG
         Declare(env, next->signature.data());
 #endif
-- 
2.43.0


From e8b7316c0b9fe480db3b796b6069d0e5e8690f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:59 +0000
Subject: [PATCH 16/35] fix: VM::GetEnv does not race with attaching and
 detaching threads

---
 src/jnivm/vm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 687d793..7eb3994 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -558,6 +558,7 @@ JNIEnv *VM::GetJNIEnv() {
 
 const std::shared_ptr<ENV>& VM::GetEnv() {
 #ifdef EnableJNIVMGC
+	std::lock_guard<std::mutex> lock(mtx);
 	return jnienvs[pthread_self()];
 #else
 	return jnienvs.begin()->second;
-- 
2.43.0


From 56dde479306566bf7cf5e871dc3488d4d7341655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:55 +0000
Subject: [PATCH 17/35] fix: calling an unimplemented method returning
 boolean[] yields an empty array

---
 src/jnivm/internal/method.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index c0b2761..d9400b6 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -108,6 +108,8 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
 #endif
             switch (signature[off + 2])
             {
+            case 'Z':
+                return env->GetJNIEnv()->NewBooleanArray(0);
             case 'B':
                 return env->GetJNIEnv()->NewByteArray(0);
             case 'S':
-- 
2.43.0


From b618da6f8bd8959b5e3e37165c3e81b88b932de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:55 +0000
Subject: [PATCH 18/35] fix: the default value of an array of arrays has the
 declared type

---
 src/jnivm/internal/method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index d9400b6..6e04c82 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -126,7 +126,7 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
                 return env->GetJNIEnv()->NewDoubleArray(0);
             case 'L':
             case '[':
-                return env->GetJNIEnv()->NewObjectArray(0, env->GetJNIEnv()->FindClass(signature[off + 2] == 'L' && signature[signature.size() - 1] == ';' ? signature.substr(off + 3, signature.size() - (off + 4)).data() : &signature.data()[off + 1]), nullptr);
+                return env->GetJNIEnv()->NewObjectArray(0, env->GetJNIEnv()->FindClass(signature[off + 2] == 'L' && signature[signature.size() - 1] == ';' ? signature.substr(off + 3, signature.size() - (off + 4)).data() : &signature.data()[off + 2]), nullptr);
             default:
 #ifdef JNI_TRACE
             LOG("JNIVM", "Constructing array=`%s` failed unknown type", &signature.data()[off + 1]);
-- 
2.43.0


From 1b3c54484b88fe34620e0a9ca8299d75f67f2138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:55 +0000
Subject: [PATCH 19/35] fix: the default value of an array of an unknown class
 does not crash if unknown symbols are refused

---
 src/jnivm/internal/method.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index 6e04c82..4f158f5 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -126,7 +126,8 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
                 return env->GetJNIEnv()->NewDoubleArray(0);
             case 'L':
             case '[':
-                return env->GetJNIEnv()->NewObjectArray(0, env->GetJNIEnv()->FindClass(signature[off + 2] == 'L' && signature[signature.size() - 1] == ';' ? signature.substr(off + 3, signature.size() - (off + 4)).data() : &signature.data()[off + 2]), nullptr);
+                // FindClass yields null for unknown classes, if unknown symbols are refused
+                return env->GetJNIEnv()->NewObjectArray(0, (jclass)JNITypes<std::shared_ptr<Class>>::ToJNIType(env, env->GetClass(signature[off + 2] == 'L' && signature[signature.size() - 1] == ';' ? signature.substr(off + 3, signature.size() - (off + 4)).data() : &signature.data()[off + 2])), nullptr);
             default:
 #ifdef JNI_TRACE
             LOG("JNIVM", "Constructing array=`%s` failed unknown type", &signature.data()[off + 1]);
-- 
2.43.0


From aaec5f35e04344a995acb1c3e5d1b415cf81d768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:21 +0000
Subject: [PATCH 20/35] fix: reflected methods and fields are instances of
 their reflection class and convert back

---
 src/jnivm/vm.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 7eb3994..e51bd93 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -49,7 +49,8 @@ jfieldID FromReflectedField(JNIEnv *env, jobject obj) {
 jobject ToReflectedMethod(JNIEnv * env, jclass c, jmethodID mid, jboolean isStatic) {
 	auto method = (Method*)mid;
 	if(c && method && method->_static == (bool)isStatic) {
-		return env->NewLocalRef((jobject) method);
+		// Also assigns the class
+		return (jobject)JNITypes<std::shared_ptr<Method>>::ToJNIType(ENV::FromJNIEnv(env), std::shared_ptr<Method>(method->shared_from_this(), method));
 	}
 	return 0;
 };
@@ -76,7 +77,8 @@ jboolean IsAssignableFrom(JNIEnv *env, jclass c1, jclass c2) {
 jobject ToReflectedField(JNIEnv * env, jclass c, jfieldID fid, jboolean isStatic) {
 	auto field = (Field*)fid;
 	if(c && field && field->_static == (bool)isStatic) {
-		return env->NewLocalRef((jobject) field);
+		// Also assigns the class
+		return (jobject)JNITypes<std::shared_ptr<Field>>::ToJNIType(ENV::FromJNIEnv(env), std::shared_ptr<Field>(field->shared_from_this(), field));
 	}
 	return 0;
 };
-- 
2.43.0


From caafbc4de3ece3324fc9a5d2dc52936ffdb926cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:21 +0000
Subject: [PATCH 21/35] fix: global and weak references to reflected members
 convert back to the identifier

---
 src/jnivm/vm.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index e51bd93..6aaf294 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -33,18 +33,12 @@ jclass FindClass(JNIEnv *env, const char *name) {
 	return InternalFindClass(env, name, returnZero, true);
 };
 jmethodID FromReflectedMethod(JNIEnv *env, jobject obj) {
-	if(obj && env->functions->IsSameObject(env, env->functions->GetObjectClass(env, obj), FindClass(env, "java/lang/reflect/Method"))) {
-		return (jmethodID) obj;
-	} else {
-		return nullptr;
-	}
+	// obj may be a global or weak reference
+	return (jmethodID) dynamic_cast<Method*>(JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), obj).get());
 };
 jfieldID FromReflectedField(JNIEnv *env, jobject obj) {
-	if(obj && env->functions->IsSameObject(env, env->functions->GetObjectClass(env, obj), FindClass(env, "java/lang/reflect/Field"))) {
-		return (jfieldID) obj;
-	} else {
-		return nullptr;
-	}
+	// obj may be a global or weak reference
+	return (jfieldID) dynamic_cast<Field*>(JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), obj).get());
 };
 jobject ToReflectedMethod(JNIEnv * env, jclass c, jmethodID mid, jboolean isStatic) {
 	auto method = (Method*)mid;
-- 
2.43.0


From bc2c4b438732dde57dd2b79b64f2e57d7c7f6e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:21 +0000
Subject: [PATCH 22/35] fix: constructors can be reflected as instance members

---
 src/jnivm/vm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 6aaf294..d4ecdb2 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -42,7 +42,8 @@ jfieldID FromReflectedField(JNIEnv *env, jobject obj) {
 };
 jobject ToReflectedMethod(JNIEnv * env, jclass c, jmethodID mid, jboolean isStatic) {
 	auto method = (Method*)mid;
-	if(c && method && method->_static == (bool)isStatic) {
+	// Constructors are kept as static methods, but are no static members
+	if(c && method && (method->_static == (bool)isStatic || method->name == "<init>")) {
 		// Also assigns the class
 		return (jobject)JNITypes<std::shared_ptr<Method>>::ToJNIType(ENV::FromJNIEnv(env), std::shared_ptr<Method>(method->shared_from_this(), method));
 	}
-- 
2.43.0


From 6954e90b51d46905410afe1bbae79ca185ba0806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:36 +0000
Subject: [PATCH 23/35] fix: createMainMethod does not crash on a VM which does
 not invent classes

---
 src/fake-jni/fake-jni.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/fake-jni/fake-jni.cpp b/src/fake-jni/fake-jni.cpp
index a06bc77..860aa6c 100644
--- a/src/fake-jni/fake-jni.cpp
+++ b/src/fake-jni/fake-jni.cpp
@@ -182,13 +182,17 @@ jnivm::Class &jnivm::Object::getClass() {
 }
 
 void FakeJni::createMainMethod(FakeJni::Jvm &jvm, std::function<void (std::shared_ptr<FakeJni::JArray<FakeJni::JString>> args)>&& callback) {
-    std::shared_ptr<JClass> createMainMethod = jvm.findClass("fakejni/impl/createMainMethod");
-    createMainMethod->Hook(jnivm::VM::FromJavaVM(&jvm)->GetEnv().get(), "main", std::move(callback));
+    auto env = jnivm::VM::FromJavaVM(&jvm)->GetEnv();
+    // Jvm::findClass doesn't create unknown classes
+    std::shared_ptr<JClass> createMainMethod = env->GetClass("fakejni/impl/createMainMethod");
+    createMainMethod->Hook(env.get(), "main", std::move(callback));
 }
 
 void FakeJni::createMainMethod(FakeJni::Jvm &jvm, std::function<void (FakeJni::JArray<FakeJni::JString>* args)>&& callback) {
-    std::shared_ptr<JClass> createMainMethod = jvm.findClass("fakejni/impl/createMainMethod");
-    createMainMethod->Hook(jnivm::VM::FromJavaVM(&jvm)->GetEnv().get(), "main", [callback](std::shared_ptr<FakeJni::JArray<FakeJni::JString>> args) {
+    auto env = jnivm::VM::FromJavaVM(&jvm)->GetEnv();
+    // Jvm::findClass doesn't create unknown classes
+    std::shared_ptr<JClass> createMainMethod = env->GetClass("fakejni/impl/createMainMethod");
+    createMainMethod->Hook(env.get(), "main", [callback](std::shared_ptr<FakeJni::JArray<FakeJni::JString>> args) {
         callback(args.get());
     });
 }
\ No newline at end of file
-- 
2.43.0


From f14e2409e97cbbb1069aee8fd3cbc2e269519404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:08 +0000
Subject: [PATCH 24/35] fix: a context of another VM does not silently use the
 environment of the thread's VM

---
 src/fake-jni/fake-jni.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fake-jni/fake-jni.cpp b/src/fake-jni/fake-jni.cpp
index 860aa6c..4857f8f 100644
--- a/src/fake-jni/fake-jni.cpp
+++ b/src/fake-jni/fake-jni.cpp
@@ -11,6 +11,9 @@ FakeJni::JniEnvContext::JniEnvContext(FakeJni::Jvm &vm) {
         vm.AttachCurrentThread(nullptr, nullptr);
 		env2 = env.env.lock();
     } else {
+		if(&env2->getVM() != &vm) {
+			throw std::runtime_error("This thread is attached to another FakeJni::Jvm");
+		}
 		this->vm = nullptr;
 	}
 }
-- 
2.43.0


From 70218ef9cadbe2f82789b74ab5432a07348b9d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:26 +0000
Subject: [PATCH 25/35] fix: generated headers define the class around a nested
 class before the classes which mention it

---
 src/jnivm/internal/codegen/class.cpp     |  4 --
 src/jnivm/internal/codegen/namespace.cpp | 89 +++++++++++++++++++-----
 2 files changed, 73 insertions(+), 20 deletions(-)

diff --git a/src/jnivm/internal/codegen/class.cpp b/src/jnivm/internal/codegen/class.cpp
index c00544c..1e7c1a9 100644
--- a/src/jnivm/internal/codegen/class.cpp
+++ b/src/jnivm/internal/codegen/class.cpp
@@ -44,10 +44,6 @@ std::string Class::GenerateHeader(std::string scope) {
 		}
 	}
 	ss << "};\n\n";
-	for (auto &cl : classes) {
-		// ss << "\n";
-		ss << cl->GenerateHeader(scope);
-	}
 	return ss.str();
 }
 
diff --git a/src/jnivm/internal/codegen/namespace.cpp b/src/jnivm/internal/codegen/namespace.cpp
index 9087c05..9ada53e 100644
--- a/src/jnivm/internal/codegen/namespace.cpp
+++ b/src/jnivm/internal/codegen/namespace.cpp
@@ -1,29 +1,86 @@
 #include <jnivm/internal/codegen/namespace.h>
 #include <jnivm/class.h>
+#include <jnivm/field.h>
+#include <jnivm/method.h>
 #include "indent.h"
 #include <sstream>
 using namespace jnivm;
 
-std::string Namespace::GenerateHeader(std::string scope) {
-	std::ostringstream ss;
-	if (name.length()) {
-		scope += scope.empty() ? name : "::" + name;
+namespace {
+	struct Definition {
+		std::shared_ptr<Class> cl;
+		std::string scope;
+		bool done;
+	};
+
+	void CollectClasses(const std::vector<std::shared_ptr<Class>> &classes, const std::string &scope, std::vector<Definition> &defs) {
+		for (auto &cl : classes) {
+			// Empty for builtin classes
+			if(!cl->GeneratePreDeclaration().empty()) {
+				defs.push_back({ cl, scope, false });
+				CollectClasses(cl->classes, scope.empty() ? cl->name : scope + "::" + cl->name, defs);
+			}
+		}
 	}
-	for (auto &cl : classes) {
-		auto sub = cl->GenerateHeader(scope);
-		if(!sub.empty()) {
-			ss << sub;
-			if(sub[sub.length() - 1] != '\n')
-				ss << "\n";
+
+	void CollectClasses(const Namespace &np, std::string scope, std::vector<Definition> &defs) {
+		if (np.name.length()) {
+			scope += scope.empty() ? np.name : "::" + np.name;
+		}
+		CollectClasses(np.classes, scope, defs);
+		for (auto &sub : np.namespaces) {
+			CollectClasses(*sub, scope, defs);
 		}
 	}
-	for (auto &np : namespaces) {
-		auto sub = np->GenerateHeader(scope);
-		if(!sub.empty()) {
-			ss << sub;
-			if(sub[sub.length() - 1] != '\n')
-				ss << "\n";
+
+	void GenerateDefinition(size_t i, std::vector<Definition> &defs, std::ostream &os);
+
+	// Nested classes are declared by the definition of the enclosing class
+	void GenerateEnclosing(const std::string &nativeprefix, std::vector<Definition> &defs, std::ostream &os) {
+		auto nested = nativeprefix.rfind('$');
+		if(nested == std::string::npos) {
+			return;
 		}
+		for (size_t i = 0; i < defs.size(); i++) {
+			if(!nativeprefix.compare(0, nested, defs[i].cl->nativeprefix)) {
+				GenerateDefinition(i, defs, os);
+			}
+		}
+	}
+
+	void GenerateEnclosingOfSignature(const std::string &signature, std::vector<Definition> &defs, std::ostream &os) {
+		size_t pos = 0, end;
+		while((pos = signature.find('L', pos)) != std::string::npos && (end = signature.find(';', pos)) != std::string::npos) {
+			GenerateEnclosing(signature.substr(pos + 1, end - pos - 1), defs, os);
+			pos = end;
+		}
+	}
+
+	void GenerateDefinition(size_t i, std::vector<Definition> &defs, std::ostream &os) {
+		if(defs[i].done) {
+			return;
+		}
+		defs[i].done = true;
+		auto cl = defs[i].cl;
+		GenerateEnclosing(cl->nativeprefix, defs, os);
+		for (auto &field : cl->fields) {
+			GenerateEnclosingOfSignature(field->type, defs, os);
+		}
+		for (auto &method : cl->methods) {
+			if(!method->native) {
+				GenerateEnclosingOfSignature(method->signature, defs, os);
+			}
+		}
+		os << cl->GenerateHeader(defs[i].scope);
+	}
+}
+
+std::string Namespace::GenerateHeader(std::string scope) {
+	std::vector<Definition> defs;
+	CollectClasses(*this, scope, defs);
+	std::ostringstream ss;
+	for (size_t i = 0; i < defs.size(); i++) {
+		GenerateDefinition(i, defs, ss);
 	}
 	return ss.str();
 }
-- 
2.43.0


From 31f6868000dc7e49d43e965e733cc904fa325821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:54 +0000
Subject: [PATCH 26/35] fix: the generated binding of overloaded methods names
 the overload

---
 include/jnivm/method.h                |  2 +-
 src/jnivm/internal/codegen/class.cpp  | 10 ++++++--
 src/jnivm/internal/codegen/method.cpp | 33 ++++++++++++++++++++-------
 3 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/include/jnivm/method.h b/include/jnivm/method.h
index 3f0b927..a58fed8 100644
--- a/include/jnivm/method.h
+++ b/include/jnivm/method.h
@@ -26,7 +26,7 @@ namespace jnivm {
 #ifdef JNI_DEBUG
         std::string GenerateHeader(const std::string &cname);
         std::string GenerateStubs(std::string scope, const std::string &cname);
-        std::string GenerateJNIBinding(std::string scope, const std::string &cname);
+        std::string GenerateJNIBinding(std::string scope, const std::string &cname, bool overloaded = false);
 #endif
         template<class... param>
         jvalue invoke(JNIEnv& env, jnivm::Class* cl, param... params);
diff --git a/src/jnivm/internal/codegen/class.cpp b/src/jnivm/internal/codegen/class.cpp
index 1e7c1a9..3a4d1e4 100644
--- a/src/jnivm/internal/codegen/class.cpp
+++ b/src/jnivm/internal/codegen/class.cpp
@@ -2,6 +2,7 @@
 #include <jnivm/method.h>
 #include <jnivm/internal/codegen/parseJNIType.h>
 #include "indent.h"
+#include <algorithm>
 #include <sstream>
 #include <regex>
 using namespace jnivm;
@@ -88,6 +89,11 @@ std::string Class::GenerateJNIBinding(std::string scope) {
 	if (std::find(std::begin(blacklisted), std::end(blacklisted), nativeprefix) != std::end(blacklisted)) return {};
 	std::ostringstream ss;
 	scope += scope.empty() ? name : "::" + name;
+	auto isOverloaded = [this](const Method &method) {
+		return std::count_if(methods.begin(), methods.end(), [&method](auto&& m) {
+			return !m->native && m->name == method.name;
+		}) > 1;
+	};
 	if(!JNIVM_FAKE_JNI_SYNTAX) {
 		ss << "{\nauto c = env->GetClass(\"" << nativeprefix << "\");\n";
 		for (auto &cl : classes) {
@@ -97,7 +103,7 @@ std::string Class::GenerateJNIBinding(std::string scope) {
 			ss << field->GenerateJNIBinding(scope, name);
 		}
 		for (auto &method : methods) {
-			ss << method->GenerateJNIBinding(scope, name);
+			ss << method->GenerateJNIBinding(scope, name, isOverloaded(*method));
 		}
 		ss << "}\n";
 	} else {
@@ -106,7 +112,7 @@ std::string Class::GenerateJNIBinding(std::string scope) {
 			ss << field->GenerateJNIBinding(scope, name);
 		}
 		for (auto &method : methods) {
-			ss << method->GenerateJNIBinding(scope, name);
+			ss << method->GenerateJNIBinding(scope, name, isOverloaded(*method));
 		}
 		ss << "END_NATIVE_DESCRIPTOR\n";
 		for (auto &cl : classes) {
diff --git a/src/jnivm/internal/codegen/method.cpp b/src/jnivm/internal/codegen/method.cpp
index 863f0c1..a70f501 100644
--- a/src/jnivm/internal/codegen/method.cpp
+++ b/src/jnivm/internal/codegen/method.cpp
@@ -110,7 +110,7 @@ std::string Method::GenerateStubs(std::string scope, const std::string &cname) {
 	return ss.str();
 }
 
-std::string Method::GenerateJNIBinding(std::string scope, const std::string &cname) {
+std::string Method::GenerateJNIBinding(std::string scope, const std::string &cname, bool overloaded) {
 	if(native) { return ""; }
 	std::ostringstream ss;
 	std::vector<std::string> parameters;
@@ -137,14 +137,31 @@ std::string Method::GenerateJNIBinding(std::string scope, const std::string &cna
 			}
 		}
 	}
+	// The address of an overloaded function is ambiguous without its type
+	auto address = [&](const std::string &cl) {
+		if(!overloaded) {
+			return "&" + cl + "::" + name;
+		}
+		std::ostringstream ss;
+		ss << "static_cast<" << rettype << " (" << (_static ? "" : cl + "::") << "*)(";
+		if(!JNIVM_FAKE_JNI_SYNTAX) {
+			ss << "jnivm::ENV*";
+			if(_static) {
+				ss << ", jnivm::Class*";
+			}
+		}
+		for (size_t i = 0; i < parameters.size(); i++) {
+			if(i || !JNIVM_FAKE_JNI_SYNTAX) {
+				ss << ", ";
+			}
+			ss << parameters[i];
+		}
+		ss << ")>(&" << cl << "::" << name << ")";
+		return ss.str();
+	};
 	if(!JNIVM_FAKE_JNI_SYNTAX) {
 		ss << "c->Hook(env, \"" << name << "\", ";
 		auto cl = scope;
-		if (name == "<init>") {
-			scope += "::" + cname;
-		} else {
-			scope += "::" + name;
-		}
 		if (name == "<init>") {
 			ss << "[](jnivm::ENV *env, jnivm::Class* cl";
 			for (size_t i = 0; i < parameters.size(); i++) {
@@ -158,7 +175,7 @@ std::string Method::GenerateJNIBinding(std::string scope, const std::string &cna
 			ss << ");}";
 			
 		} else {
-			ss << "&" << scope;
+			ss << address(cl);
 		}
 		ss << ");\n";
 	} else {
@@ -169,7 +186,7 @@ std::string Method::GenerateJNIBinding(std::string scope, const std::string &cna
 			}
 			ss << ">{}},\n";
 		} else {
-			ss << "{FakeJni::Function<&" << cname << "::" << name << ">{}, \"" << name << "\", FakeJni::JMethodID::PUBLIC";
+			ss << "{FakeJni::Function<" << address(cname) << ">{}, \"" << name << "\", FakeJni::JMethodID::PUBLIC";
 			if(_static) {
 				ss << " | FakeJni::JMethodID::STATIC";
 			}
-- 
2.43.0


From 0aa5e07d086aee5472bb06a5e3f3a043041fc01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:13 +0000
Subject: [PATCH 27/35] fix: classes may have a member named clazz

---
 include/jnivm/env.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/jnivm/env.h b/include/jnivm/env.h
index 5505207..89e5dbf 100644
--- a/include/jnivm/env.h
+++ b/include/jnivm/env.h
@@ -61,7 +61,8 @@ namespace jnivm {
         static std::function<std::shared_ptr<jnivm::Object>(ENV* env)> CreateLambda() {
             static_assert(std::is_base_of<Object, T>::value, "You have to public extend jnivm::Object / FakeJni::JObject");
             return [](ENV* env) -> std::shared_ptr<jnivm::Object> {
-                auto res = std::make_shared<T>();
+                // T may have a member of its own named clazz
+                std::shared_ptr<jnivm::Object> res = std::make_shared<T>();
                 auto f = env->GetVM()->typecheck.find(typeid(T));
                 if(f != env->GetVM()->typecheck.end()) {
                     res->clazz = f->second;
-- 
2.43.0


From d6fda5e30728d2feef41b940880bb4266883e2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:44 +0000
Subject: [PATCH 28/35] fix: generated sources can mention
 java/lang/ref/WeakReference

---
 include/jnivm/javatypes.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/jnivm/javatypes.h b/include/jnivm/javatypes.h
index 125d7b7..dedd537 100644
--- a/include/jnivm/javatypes.h
+++ b/include/jnivm/javatypes.h
@@ -14,6 +14,9 @@ namespace jnivm {
             using String = jnivm::String;
             using Class = jnivm::Class;
             using Throwable = jnivm::Throwable;
+            namespace ref {
+                using WeakReference = jnivm::Weak;
+            }
             namespace reflect {
                 using Method = jnivm::Method;
                 using Field = jnivm::Field;
-- 
2.43.0


From 6dfe780239c9ce3899b6d819df099382b290d0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:20 +0000
Subject: [PATCH 29/35] fix: hooks may hook their own method or field again
 while they run

---
 src/jnivm/internal/field.cpp  |  8 ++++++--
 src/jnivm/internal/method.cpp | 12 +++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/jnivm/internal/field.cpp b/src/jnivm/internal/field.cpp
index e2e44cd..9675a59 100644
--- a/src/jnivm/internal/field.cpp
+++ b/src/jnivm/internal/field.cpp
@@ -120,7 +120,9 @@ template<bool RetNull, class T, class O> T jnivm::GetField(JNIEnv *env, O obj, j
         auto cl = Util::GetClass(ENV::FromJNIEnv(env), obj);
         LOG("JNIVM", "Invoked Field Getter Class=`%s` Field=`%s` Signature=`%s`", cl ? cl->nativeprefix.data() : "???", fid->name.data(), fid->type.data());
 #endif
-        return Caller<std::is_same<O, jclass>::value>::template Get<T>(fid->getnativehandle.get(), ENV::FromJNIEnv(env), Util::GetParam(ENV::FromJNIEnv(env), obj));
+        // Stays alive while it runs, even if the field is hooked again meanwhile
+        auto handle = fid->getnativehandle;
+        return Caller<std::is_same<O, jclass>::value>::template Get<T>(handle.get(), ENV::FromJNIEnv(env), Util::GetParam(ENV::FromJNIEnv(env), obj));
     } else {
 #ifdef JNI_TRACE
         auto cl = Util::GetClass(ENV::FromJNIEnv(env), obj);
@@ -149,7 +151,9 @@ template<class T, class O> void jnivm::SetField(JNIEnv *env, O obj, jfieldID id,
         jvalue val;
         memset(&val, 0, sizeof(val));
         memcpy(&val, &value, sizeof(T));
-        return Caller<std::is_same<O, jclass>::value>::template Set<T>(fid->setnativehandle.get(), ENV::FromJNIEnv(env), Util::GetParam(ENV::FromJNIEnv(env), obj), &val);
+        // Stays alive while it runs, even if the field is hooked again meanwhile
+        auto handle = fid->setnativehandle;
+        return Caller<std::is_same<O, jclass>::value>::template Set<T>(handle.get(), ENV::FromJNIEnv(env), Util::GetParam(ENV::FromJNIEnv(env), obj), &val);
     } else {
 #ifdef JNI_TRACE
         auto cl = Util::GetClass(ENV::FromJNIEnv(env), obj);
diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index 4f158f5..5cf3129 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -221,7 +221,9 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
         LOG("JNIVM", "Call Member Function Class=`%s` Method=`%s` Signature=`%s`", cl ? cl->nativeprefix.data() : "???", mid->name.data(), mid->signature.data());
 #endif
         try {
-            return static_cast<jnivm::impl::MethodHandleBase<T>*>(mid->nativehandle.get())->InstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
+            // Stays alive while it runs, even if the method is hooked again meanwhile
+            auto handle = mid->nativehandle;
+            return static_cast<jnivm::impl::MethodHandleBase<T>*>(handle.get())->InstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
         } catch (...) {
             auto cur = std::make_shared<Throwable>();
             cur->except = std::current_exception();
@@ -285,7 +287,9 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
         LOG("JNIVM", "Call NonVirtual Member Function Class=`%s` Method=`%s` Signature=`%s`", clz ? clz->nativeprefix.data() : "???", mid->name.data(), mid ? mid->signature.data() : "???");
 #endif
         try {
-            return static_cast<jnivm::impl::MethodHandleBase<T>*>(mid->nativehandle.get())->NonVirtualInstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
+            // Stays alive while it runs, even if the method is hooked again meanwhile
+            auto handle = mid->nativehandle;
+            return static_cast<jnivm::impl::MethodHandleBase<T>*>(handle.get())->NonVirtualInstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
         } catch (...) {
             auto cur = std::make_shared<Throwable>();
             cur->except = std::current_exception();
@@ -317,7 +321,9 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jclass _cl
         LOG("JNIVM", "Call Static Function Class=`%s` Method=`%s` Signature=`%s`", cl ? cl->nativeprefix.data() : "???", mid->name.data(), mid ? mid->signature.data() : "???");
 #endif
         try {
-             return static_cast<jnivm::impl::MethodHandleBase<T>*>(mid->nativehandle.get())->StaticInvoke(ENV::FromJNIEnv(env), cl.get(), param, jnivm::impl::MethodHandleBase<T>{});
+            // Stays alive while it runs, even if the method is hooked again meanwhile
+            auto handle = mid->nativehandle;
+            return static_cast<jnivm::impl::MethodHandleBase<T>*>(handle.get())->StaticInvoke(ENV::FromJNIEnv(env), cl.get(), param, jnivm::impl::MethodHandleBase<T>{});
         } catch (...) {
             auto cur = std::make_shared<Throwable>();
             cur->except = std::current_exception();
-- 
2.43.0


From 7f4d5a7eceea4b1751e5d56edbc4e485818a8909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:20 +0000
Subject: [PATCH 30/35] fix: destructors of popped local references may use the
 environment

---
 src/jnivm/vm.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index d4ecdb2..29fa7a0 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -138,13 +138,16 @@ jobject PopLocalFrame(JNIEnv * env, jobject result) {
 	auto&& nenv = *ENV::FromJNIEnv(env);
 	// save reference on stack
 	auto res = JNITypes<std::shared_ptr<Object>>::JNICast(&nenv, result);
-	// Clear current Frame and move to freelist
-	nenv.localframe.front().clear();
-	nenv.freeframes.splice_after(nenv.freeframes.before_begin(), nenv.localframe, nenv.localframe.before_begin());
+	// Remove the current Frame first, destructors of the released objects may use this ENV
+	std::forward_list<std::vector<std::shared_ptr<Object>>> frame;
+	frame.splice_after(frame.before_begin(), nenv.localframe, nenv.localframe.before_begin());
 	if(nenv.localframe.empty()) {
 		LOG("JNIVM", "Freed top level frame of this ENV, recreate it");
 		nenv.localframe.emplace_front();
 	}
+	// Clear it and move to freelist
+	frame.front().clear();
+	nenv.freeframes.splice_after(nenv.freeframes.before_begin(), frame, frame.before_begin());
 	// Add result to previous frame
 	if(res) {
 		return JNITypes<std::shared_ptr<Object>>::ToJNIType(&nenv, res);
-- 
2.43.0


From 866aa20f70f99ae9248884879be950950d482727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:20 +0000
Subject: [PATCH 31/35] fix: destructors of objects released by detaching may
 use the VM

---
 src/jnivm/vm.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 29fa7a0..5a5b685 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -500,11 +500,22 @@ jnivm::VM::VM(bool skipInit, bool ReturnNull) : ninterface(ReturnNull ? GetNativ
 			[](JavaVM *vm) -> jint {
 #ifdef EnableJNIVMGC
 				auto&& nvm = *VM::FromJavaVM(vm);
-				std::lock_guard<std::mutex> lock(nvm.mtx);
-				auto fe = nvm.jnienvs.end();
-				auto f = nvm.jnienvs.find(pthread_self());
-				if(f != fe) {
-					nvm.jnienvs.erase(f);
+				std::shared_ptr<ENV> nenv;
+				{
+					std::lock_guard<std::mutex> lock(nvm.mtx);
+					auto fe = nvm.jnienvs.end();
+					auto f = nvm.jnienvs.find(pthread_self());
+					if(f != fe) {
+						nenv = std::move(f->second);
+						nvm.jnienvs.erase(f);
+					}
+				}
+				// Release what the thread holds while the ENV is still usable, destructors may use it
+				while(nenv && (nenv->current_exception || std::next(nenv->localframe.begin()) != nenv->localframe.end() || !nenv->localframe.front().empty())) {
+					nenv->current_exception = nullptr;
+					auto frames = std::move(nenv->localframe);
+					nenv->localframe.clear();
+					nenv->localframe.emplace_front();
 				}
 #endif
 				return JNI_OK;
-- 
2.43.0


From 28c2752445700575c817ed93ae80edc9e7d7a8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:20 +0000
Subject: [PATCH 32/35] fix: destructors of a replaced element or exception may
 replace it again

---
 include/jnivm/array.h         | 4 +++-
 src/jnivm/internal/method.cpp | 6 +++---
 src/jnivm/vm.cpp              | 2 +-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/jnivm/array.h b/include/jnivm/array.h
index 0958fe2..f976f09 100644
--- a/include/jnivm/array.h
+++ b/include/jnivm/array.h
@@ -184,7 +184,9 @@ namespace jnivm {
                 if(val && !accepts(val.get())) {
                     throw std::runtime_error("Class Type Exception");
                 }
-                element(i) = val;
+                // The destructor of the previous element may store another one
+                auto prev = val;
+                element(i).swap(prev);
             }
         public:
             Array() : Array<void>(nullptr, 0) {}
diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index 5cf3129..6aadd84 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -227,7 +227,7 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
         } catch (...) {
             auto cur = std::make_shared<Throwable>();
             cur->except = std::current_exception();
-            (ENV::FromJNIEnv(env))->current_exception = cur;
+            (ENV::FromJNIEnv(env))->current_exception = std::move(cur);
 #ifdef JNI_TRACE
             env->ExceptionDescribe();
 #endif
@@ -293,7 +293,7 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
         } catch (...) {
             auto cur = std::make_shared<Throwable>();
             cur->except = std::current_exception();
-            (ENV::FromJNIEnv(env))->current_exception = cur;
+            (ENV::FromJNIEnv(env))->current_exception = std::move(cur);
 #ifdef JNI_TRACE
             env->ExceptionDescribe();
 #endif
@@ -327,7 +327,7 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jclass _cl
         } catch (...) {
             auto cur = std::make_shared<Throwable>();
             cur->except = std::current_exception();
-            (ENV::FromJNIEnv(env))->current_exception = cur;
+            (ENV::FromJNIEnv(env))->current_exception = std::move(cur);
 #ifdef JNI_TRACE
             env->ExceptionDescribe();
 #endif
diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 5a5b685..be796ee 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -88,7 +88,7 @@ jint ThrowNew(JNIEnv *env, jclass c, const char * message) {
 	} catch(...) {
 		auto th = std::make_shared<Throwable>();
 		th->except = std::current_exception();
-		(ENV::FromJNIEnv(env))->current_exception = th;
+		(ENV::FromJNIEnv(env))->current_exception = std::move(th);
 	}
 	return 0;
 };
-- 
2.43.0


From b37bb70fcdd6f34ba48d7b187571abf09d286d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:08 +0000
Subject: [PATCH 33/35] fix: converting objects of a bound class no longer
 rewrites the class while other threads read it

---
 include/jnivm/env.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/jnivm/env.h b/include/jnivm/env.h
index 89e5dbf..099dd8a 100644
--- a/include/jnivm/env.h
+++ b/include/jnivm/env.h
@@ -80,15 +80,27 @@ namespace jnivm {
 
     template<class T> struct IsClass<T, void_t<decltype(T::GetBaseClasses(std::declval<ENV*>()))>> {
         static void AddInherience(std::shared_ptr<jnivm::Class> &c, ENV*env) {
-            c->baseclasses = &T::GetBaseClasses;
+            auto bases = &T::GetBaseClasses;
+            auto current = c->baseclasses.template target<decltype(bases)>();
+            if(!current || *current != bases) {
+                c->baseclasses = bases;
+            }
         }
     };
 }
 
 template<class T> std::shared_ptr<jnivm::Class> jnivm::ENV::GetClass(const char *name) {
     std::lock_guard<std::mutex> lock(vm->mtx);
-    auto& c = vm->typecheck[typeid(T)] = GetClass(name);
-    c->Instantiate = jnivm::Factory<T>::CreateLambda();
+    auto c = GetClass(name);
+    // Other threads may use a class which is already known, keep it as is
+    auto& known = vm->typecheck[typeid(T)];
+    if(known != c) {
+        known = c;
+    }
+    auto instantiate = jnivm::Factory<T>::CreateLambda();
+    if(c->Instantiate.target_type() != instantiate.target_type()) {
+        c->Instantiate = std::move(instantiate);
+    }
     IsClass<T>::AddInherience(c, this);
     return c;
 }
-- 
2.43.0


From c07958f1222c1409cefd27a3cd5269c9460fbacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:53 +0000
Subject: [PATCH 34/35] fix: hooks keep a copy of a function or member pointer
 passed by reference

---
 include/jnivm/wrap.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/jnivm/wrap.h b/include/jnivm/wrap.h
index c30b057..4c75cdf 100644
--- a/include/jnivm/wrap.h
+++ b/include/jnivm/wrap.h
@@ -59,6 +59,9 @@ namespace jnivm {
         }
     };
 
+    // Hooks keep a copy of a pointer, also if it is passed by reference
+    template<class Funk> using WrapHandle = std::conditional_t<std::is_function<std::remove_reference_t<Funk>>::value, Funk, std::remove_cv_t<std::remove_reference_t<Funk>>>;
+
     template<class Funk, class...EnvOrObjOrClass> struct Obj {
         using Function = jnivm::Function<Funk>;
         template<class Seq> struct InstanceBase;
@@ -159,7 +162,7 @@ namespace jnivm {
     };
     template<class Funk, size_t...I> class OldWrapper<Funk, FunctionType::Property, std::index_sequence<I...>> : public Property<Funk> {
         using Function = jnivm::Function<Funk>;
-        Funk handle;
+        WrapHandle<Funk> handle;
     public:
         OldWrapper(Funk handle) : handle(handle) {}
 
@@ -179,7 +182,7 @@ namespace jnivm {
 
     template<class Funk, size_t...I> class OldWrapper<Funk, FunctionType::InstanceProperty, std::index_sequence<I...>> : public Property<Funk> {
         using Function = jnivm::Function<Funk>;
-        Funk handle;
+        WrapHandle<Funk> handle;
     public:
         OldWrapper(Funk handle) : handle(handle) {}
 
@@ -193,7 +196,7 @@ namespace jnivm {
     
     template<class Funk, class...EnvOrObjOrClass> class BaseWrapper<Funk, FunctionType::Instance, EnvOrObjOrClass...> : public Obj<Funk, EnvOrObjOrClass...>::template InstanceBase<std::make_index_sequence<Function<Funk>::plength - sizeof...(EnvOrObjOrClass)>> {
         using Function = jnivm::Function<Funk>;
-        Funk handle;
+        WrapHandle<Funk> handle;
         using BaseClass = typename Obj<Funk, EnvOrObjOrClass...>::template InstanceBase<std::make_index_sequence<Function::plength - sizeof...(EnvOrObjOrClass)>>;
     public:
         BaseWrapper(Funk handle) : handle(handle) {}
@@ -210,7 +213,7 @@ namespace jnivm {
     };
 
     template<class Funk, class Base1, class Base2> class WrapperUtil : public Base1, public Base2 {
-        Funk handle;
+        WrapHandle<Funk> handle;
         using Function = jnivm::Function<Funk>;
     public:
         WrapperUtil(Funk handle) : handle(handle) {}
-- 
2.43.0


From c0866fcb71fbf8f9ee13b2246a682de94dd5f8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:06 +0000
Subject: [PATCH 35/35] fix: native types can be bound while other threads use
 the VM

ENV::GetClass<T> changed VM::typecheck while other threads looked it up
to convert objects, to construct unknown results, to install hooks and
to find base classes without holding VM::mtx (which would deadlock, as
GetClass<T> is called with it held). It is now also guarded by the
innermost lock classmtx: writers hold both, readers either.
---
 include/jnivm/class.h    |  2 ++
 include/jnivm/env.h      | 10 +++++++---
 include/jnivm/extends.h  |  9 ++++++++-
 include/jnivm/jnitypes.h |  3 +--
 include/jnivm/vm.h       |  2 +-
 5 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/jnivm/class.h b/include/jnivm/class.h
index dd096c3..c45d8fb 100644
--- a/include/jnivm/class.h
+++ b/include/jnivm/class.h
@@ -72,6 +72,7 @@ namespace jnivm {
             static void install(ENV* env, Class* cl, const std::string& id, T&& t) {
                 // Filter false positives at runtime
                 if((int)bind & (int)FunctionType::Instance ? !std::is_same<Object*, typename Function<T>::template Parameter<1>>::value && !std::is_same<jobject, typename Function<T>::template Parameter<1>>::value : !std::is_same<Class*, typename Function<T>::template Parameter<1>>::value && !std::is_same<jclass, typename Function<T>::template Parameter<1>>::value) {
+                    std::lock_guard<std::mutex> lock(env->GetVM()->classmtx);
                     auto oc = env->GetVM()->typecheck.find(typeid(std::remove_pointer_t<typename Function<T>::template Parameter<1>>));
                     if(oc == env->GetVM()->typecheck.end() || oc->second.get() != cl) {
                         return;
@@ -85,6 +86,7 @@ namespace jnivm {
             static void install(ENV* env, Class* cl, const std::string& id, T&& t) {
                 // Filter false positives at runtime
                 if((int)bind & (int)FunctionType::Instance ? !std::is_same<Object*, typename Function<T>::template Parameter<0>>::value && !std::is_same<jobject, typename Function<T>::template Parameter<0>>::value : !std::is_same<Class*, typename Function<T>::template Parameter<0>>::value && !std::is_same<jclass, typename Function<T>::template Parameter<0>>::value) {
+                    std::lock_guard<std::mutex> lock(env->GetVM()->classmtx);
                     auto oc = env->GetVM()->typecheck.find(typeid(std::remove_pointer_t<typename Function<T>::template Parameter<0>>));
                     if(oc == env->GetVM()->typecheck.end() || oc->second.get() != cl) {
                         return;
diff --git a/include/jnivm/env.h b/include/jnivm/env.h
index 099dd8a..8a06883 100644
--- a/include/jnivm/env.h
+++ b/include/jnivm/env.h
@@ -63,6 +63,7 @@ namespace jnivm {
             return [](ENV* env) -> std::shared_ptr<jnivm::Object> {
                 // T may have a member of its own named clazz
                 std::shared_ptr<jnivm::Object> res = std::make_shared<T>();
+                std::lock_guard<std::mutex> lock(env->GetVM()->classmtx);
                 auto f = env->GetVM()->typecheck.find(typeid(T));
                 if(f != env->GetVM()->typecheck.end()) {
                     res->clazz = f->second;
@@ -93,9 +94,12 @@ template<class T> std::shared_ptr<jnivm::Class> jnivm::ENV::GetClass(const char
     std::lock_guard<std::mutex> lock(vm->mtx);
     auto c = GetClass(name);
     // Other threads may use a class which is already known, keep it as is
-    auto& known = vm->typecheck[typeid(T)];
-    if(known != c) {
-        known = c;
+    {
+        std::lock_guard<std::mutex> classlock(vm->classmtx);
+        auto& known = vm->typecheck[typeid(T)];
+        if(known != c) {
+            known = c;
+        }
     }
     auto instantiate = jnivm::Factory<T>::CreateLambda();
     if(c->Instantiate.target_type() != instantiate.target_type()) {
diff --git a/include/jnivm/extends.h b/include/jnivm/extends.h
index d7b7aad..757ccfe 100644
--- a/include/jnivm/extends.h
+++ b/include/jnivm/extends.h
@@ -8,13 +8,20 @@
 namespace jnivm {
 
     namespace impl {
+        // Finds the class of a native type, yields null if the type isn't registered
+        inline std::shared_ptr<Class> FindNativeClass(VM* vm, const std::type_info& type) {
+            std::lock_guard<std::mutex> lock(vm->classmtx);
+            auto c = vm->typecheck.find(type);
+            return c != vm->typecheck.end() ? c->second : nullptr;
+        }
+
         template<class, class... BaseClasses> class Extends : public virtual BaseClasses... {
         public:
             using BaseClasseTuple = std::tuple<BaseClasses...>;
             template<class T>
             using ArrayBaseType = ArrayBase<T, BaseClasses...>;
             static std::vector<std::shared_ptr<Class>> GetBaseClasses(ENV* env) {
-                std::vector<std::shared_ptr<Class>> ret = { env->GetVM()->typecheck[typeid(BaseClasses)]... };
+                std::vector<std::shared_ptr<Class>> ret = { FindNativeClass(env->GetVM(), typeid(BaseClasses))... };
 #ifndef NDEBUG
                 for(size_t i = 0, size = ret.size(); i < size; ++i) {
                     if(!ret[i]) {
diff --git a/include/jnivm/jnitypes.h b/include/jnivm/jnitypes.h
index 3fc7d5b..07fc029 100644
--- a/include/jnivm/jnitypes.h
+++ b/include/jnivm/jnitypes.h
@@ -284,8 +284,7 @@ template<class T, class B, class orgtype> std::string jnivm::JNITypesObjectBase<
 }
 
 template<class T, class B, class orgtype> std::shared_ptr<jnivm::Class> jnivm::JNITypesObjectBase<T, B, orgtype>::GetClass(jnivm::ENV *env) {
-    // ToDo find the deadlock or replace with recursive_mutex
-    // std::lock_guard<std::mutex> lock(env->GetVM()->mtx);
+    // The caller holds classmtx
     auto r = env->GetVM()->typecheck.find(typeid(T));
     if(r != env->GetVM()->typecheck.end()) {
         return r->second;
diff --git a/include/jnivm/vm.h b/include/jnivm/vm.h
index fdecfa0..7cd5c73 100644
--- a/include/jnivm/vm.h
+++ b/include/jnivm/vm.h
@@ -66,7 +66,7 @@ namespace jnivm {
         std::mutex classmtx;
         // Stores all global references
         std::vector<std::shared_ptr<Object>> globals;
-        // Stores all classes by c++ typeid
+        // Stores all classes by c++ typeid, written while mtx and classmtx are held, read while either is
         std::unordered_map<std::type_index, std::shared_ptr<Class>> typecheck;
         VM(const VM&) = delete;
         VM(VM&&) = delete;
-- 
2.43.0

