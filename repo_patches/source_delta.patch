From 88d5fb2bb6d14609ff964791af54c5deeed6618f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:08 +0000
Subject: [PATCH 01/45] fix: move assignment of an Array leaked the previous
 elements and storage

---
 include/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index 941fa4e..4445719 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -132,7 +132,7 @@ public:
         return *this; }
     //! \brief Move assignment.
     Array<T>& operator=(Array<T>&& a) {
-        if(this!=&a) { this->_size=a._size; this->_ptr=a._ptr; a._size=0u; a._ptr=nullptr; } return *this; }
+        if(this!=&a) { this->_destroy_elements(); uninitialized_delete(_ptr); this->_size=a._size; this->_ptr=a._ptr; a._size=0u; a._ptr=nullptr; } return *this; }
 
     //! \brief True if the Array's size is 0.
     bool empty() const { return _size==0u; }
-- 
2.43.0


From 21c544aa7bfa69b519785108678e8d314df1d435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:11 +0000
Subject: [PATCH 02/45] fix: SharedArray destructor decremented the pointer to
 the count, not the count

---
 include/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index 4445719..89f8b6c 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -228,7 +228,7 @@ public:
     typedef ValueType const* ConstIterator;
     size_t* _count; size_t _size; T* _ptr;
 public:
-    ~SharedArray() { --_count; if(*_count==0) { delete[] _ptr; } }
+    ~SharedArray() { --*_count; if(*_count==0) { delete _count; delete[] _ptr; } }
     SharedArray(size_t n) : _count(new size_t(1u)), _size(n), _ptr(new T[n]) { }
     SharedArray(size_t n, const T& x) : SharedArray(n) {
         for(size_t i=0; i!=n; ++i) { _ptr[i]=x; } }
-- 
2.43.0


From ca2520026995bcd7e2bbb953963b1596bdfd4222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:14 +0000
Subject: [PATCH 03/45] fix: Set::restrict removed the elements it should keep

---
 include/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/container.hpp b/include/container.hpp
index aaf3531..74bc38d 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -196,7 +196,7 @@ template<class T> class Set : public std::set<T> {
         return *this; }
     Set<T>& restrict(const std::set<T>& s) {
         auto iter=this->begin();
-        while(iter!=this->end()) { if(s.find(*iter)!=s.end()) { this->erase(iter++); } else { ++iter; } }
+        while(iter!=this->end()) { if(s.find(*iter)==s.end()) { this->erase(iter++); } else { ++iter; } }
         return *this; }
     template<class TT> Set<T>& remove(const std::vector<TT>& l) {
         for(auto iter=l.begin(); iter!=l.end(); ++iter) {
-- 
2.43.0


From e69f997d45e1b1e50822c5e3957c75d1aac0df20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:18 +0000
Subject: [PATCH 04/45] fix: apply to a Set did not compile

---
 include/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/container.hpp b/include/container.hpp
index 74bc38d..c43e5f8 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -205,7 +205,7 @@ template<class T> class Set : public std::set<T> {
 };
 template<class T, Invocable<T> F> inline
 Set<InvokeResult<F,T>> apply(F&& f, Set<T> const& set) {
-    typedef InvokeResult<F,T> R; Set<R> res; for (auto itm : set) { res.adjoin(f(itm)); } return res; }
+    typedef InvokeResult<F,T> R; Set<R> res; for (auto itm : set) { res.insert(f(itm)); } return res; }
 template<class T> inline Set<T> join(Set<T> s1, Set<T> const& s2) {
     s1.adjoin(s2); return s1; }
 template<class T> inline bool contains(const std::set<T>& s, const T& t) {
-- 
2.43.0


From 340e898a5ef89b6737ba944c8b581000f3ee6e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:21 +0000
Subject: [PATCH 05/45] fix: appending a List to itself did not terminate

---
 include/container.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/container.hpp b/include/container.hpp
index c43e5f8..c187592 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -87,9 +87,9 @@ template<class T> class List : public std::vector<T> {
         explicit List(const std::vector<TT>& l) : std::vector<T>(l.begin(),l.end()) { }
     void append(const T& t) { this->push_back(t); }
     void append(const std::vector<T>& t) {
-        for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
+        const size_t n=t.size(); for(size_t i=0; i!=n; ++i) { this->push_back(t[i]); } }
     void concatenate(const std::vector<T>& t) {
-        for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
+        const size_t n=t.size(); for(size_t i=0; i!=n; ++i) { this->push_back(t[i]); } }
 };
 template<class T> inline List<T> catenate(const List<T>& l1, const List<T>& l2) {
     List<T> r(l1);
-- 
2.43.0


From 0702b6aa77dbc13dd5c63270fcbc2313b6d708af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:25 +0000
Subject: [PATCH 06/45] fix: LinkedList fill constructor, append and
 concatenate did not compile

---
 include/container.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/container.hpp b/include/container.hpp
index c187592..6cdff21 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -142,15 +142,15 @@ template<class T> class LinkedList
     typedef typename std::list<T>::const_iterator ConstIterator;
     LinkedList() : std::list<T>() { }
     LinkedList(unsigned int n) : std::list<T>(n) { }
-    LinkedList(unsigned int n, const T& t) : std::vector<T>(n,t) { }
+    LinkedList(unsigned int n, const T& t) : std::list<T>(n,t) { }
     LinkedList(const std::list<T>& l) : std::list<T>(l) { }
     template<class X> LinkedList(const List<X>& l) : std::list<T>(l.begin(),l.end()) { }
     template<class X> LinkedList(const LinkedList<X>& l) : std::list<T>(l.begin(),l.end()) { }
     template<class I> LinkedList(const I& b, const I& e) : std::list<T>(b,e) { }
     // Conversion constructor from an value to a single-element list.
     void append(const T& t) { this->push_back(t); }
-    void append(const LinkedList<T>& t) { for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
-    void concatenate(const LinkedList<T>& t) { for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
+    void append(const LinkedList<T>& t) { this->insert(this->end(),t.begin(),t.end()); }
+    void concatenate(const LinkedList<T>& t) { this->insert(this->end(),t.begin(),t.end()); }
 };
 template<class T> inline ostream&
 operator<< (ostream &os, const std::list<T>& l) {
-- 
2.43.0


From 8a9fc3f4794f60d1bb6fdde033ac56bf4babfd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:28 +0000
Subject: [PATCH 07/45] fix: make_list of an Array did not compile

---
 include/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/container.hpp b/include/container.hpp
index 6cdff21..b2ec606 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -321,7 +321,7 @@ template<class T> inline Array<T> make_array(const Array<T>& ary) { return Array
 
 template<class T> inline List<T> make_list(const T& t) { return List<T>(1u,t); }
 template<class T> inline List<T> make_list(const std::vector<T>& vec) { return List<T>(vec); }
-template<class T> inline List<T> make_list(const Array<T>& ary) { return List<T>(ary); }
+template<class T> inline List<T> make_list(const Array<T>& ary) { return List<T>(ary.begin(),ary.end()); }
 template<class T> inline List<T> make_list(const Set<T>& set) { return List<T>(set.begin(),set.end()); }
 
 template<class T> inline Set<T> make_set(const std::vector<T>& lst) { return Set<T>(lst); }
-- 
2.43.0


From 0ccc5afc5af84e5163d985192de7bcbb20b03023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:31 +0000
Subject: [PATCH 08/45] fix: writing a std::tuple of types from outside
 namespace Helper did not compile

---
 include/stlio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlio.hpp b/include/stlio.hpp
index 93055b4..a7412a3 100644
--- a/include/stlio.hpp
+++ b/include/stlio.hpp
@@ -219,7 +219,7 @@ operator<<(std::ostream &os, const std::pair<S,T>& s)
 template<class... TS> inline
 std::ostream& operator<<(std::ostream& os, std::tuple<TS...> const& tup) {
     typename std::tuple_size<std::tuple<TS...>>::type sz;
-    os << "("; write_tuple(os,tup,sz); os << ")"; return os;
+    os << "("; Helper::write_tuple(os,tup,sz); os << ")"; return os;
 }
 
 /*
-- 
2.43.0


From f3e8b0868116bb78d59fe51973c186ef5e572926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:35 +0000
Subject: [PATCH 09/45] fix: read_sequence inspected an uninitialised character
 on empty input

---
 include/stlio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlio.hpp b/include/stlio.hpp
index a7412a3..72d5bbd 100644
--- a/include/stlio.hpp
+++ b/include/stlio.hpp
@@ -149,7 +149,7 @@ read_sequence(istream& is, Container& v,
     typedef typename Container::value_type T;
 
     T x;
-    char c;
+    char c='\0';
 
     v.clear();
 
-- 
2.43.0


From f838d4b180b11182f4402b68505ef0c9ce8237e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:04 +0000
Subject: [PATCH 10/45] fix: LRUCache::put used an evicted value it was given
 and broke the ages when a copy failed

---
 include/lru_cache.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lru_cache.hpp b/include/lru_cache.hpp
index aa7a704..ce72775 100644
--- a/include/lru_cache.hpp
+++ b/include/lru_cache.hpp
@@ -79,6 +79,8 @@ template<class L, class V> class LRUCache {
     //! \details The element must not already exist; updates ages accordingly
     void put(L const& label, V const& val) {
         HELPER_PRECONDITION(not has_label(label));
+        std::map<L,AgeValuePair> inserted;
+        inserted.insert({label,AgeValuePair(0,val)});
         if (_elements.size() < _maximum_size) {
             for (auto& other : _elements) other.second.age++;
         } else {
@@ -89,7 +91,7 @@ template<class L, class V> class LRUCache {
             }
             _elements.erase(to_remove);
         }
-        _elements.insert({label,AgeValuePair(0,val)});
+        _elements.merge(inserted);
     }
 
     //! \brief The current size due to putting elements
-- 
2.43.0


From c7d93e883918a614d4d2cdb2ef71b915cb1b0c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:08 +0000
Subject: [PATCH 11/45] fix: an element operation that throws left Arrays
 leaking or destroying unconstructed elements

---
 include/array.hpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/include/array.hpp b/include/array.hpp
index 89f8b6c..e660a62 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -78,7 +78,8 @@ public:
     //! \brief Default constructor. Constructs an empty Array.
     Array() : _size(0), _ptr(0) { }
     //! \brief Constructs an Array of size \a n with default-initialised elements.
-    explicit Array(const size_t n) : _size(n), _ptr(uninitialized_new(n)) { for(size_t i=0; i!=n; ++i) { new (_ptr+i) T(); } }
+    explicit Array(const size_t n) : _size(n), _ptr(uninitialized_new(n)) {
+        _construct(_ptr,n,[](pointer p, size_t){ new (p) T(); }); }
     //! \brief Constructs an Array of size \a n with uninitialised elements. The elements should be initialised using placement new.
     explicit Array(const size_t n, Uninitialised) : _size(n), _ptr(uninitialized_new(n)) { }
     //! \brief Constructs an Array of size \a n with elements initialised to \a x.
@@ -128,7 +129,7 @@ public:
     //! \brief Copy assignment.
     Array<T>& operator=(const Array<T>& a) {
         if(this->size()==a.size()) { fill(a.begin()); }
-        else { this->_destroy_elements(); uninitialized_delete(_ptr); _size=a.size(); _ptr=uninitialized_new(_size); this->_uninitialized_fill(a.begin()); }
+        else { Array<T> r(a); this->swap(r); }
         return *this; }
     //! \brief Move assignment.
     Array<T>& operator=(Array<T>&& a) {
@@ -145,17 +146,16 @@ public:
         static_assert(DefaultConstructible<T>);
         if(size()!=n) {
             pointer _new_ptr=uninitialized_new(n);
-            for(size_t i=0; i!=n; ++i) { if(i<_size) { new (_new_ptr+i) T(_ptr[i]); } else { new (_new_ptr+i) T(); } }
+            _construct(_new_ptr,n,[&](pointer p, size_t i){ if(i<_size) { new (p) T(_ptr[i]); } else { new (p) T(); } });
             this->_destroy_elements(); uninitialized_delete(_ptr); _size=n; _ptr=_new_ptr; } }
     //! \brief Resizes the Array to hold \a n elements. If \a n is larger than the current size, the extra elements are initialised with value \a t.
     void resize(size_t n, const T& t) {
         if(size()!=n) {
             pointer _new_ptr=uninitialized_new(n);
-            for(size_t i=0; i!=n; ++i) { if(i<_size) { new (_new_ptr+i) T(_ptr[i]); } else { new (_new_ptr+i) T(t); } }
+            _construct(_new_ptr,n,[&](pointer p, size_t i){ if(i<_size) { new (p) T(_ptr[i]); } else { new (p) T(t); } });
             this->_destroy_elements(); uninitialized_delete(_ptr); _size=n; _ptr=_new_ptr; } }
     //! \brief Reallocates the Array to hold \a n elements. The new elements are default-constructed.
-    void reallocate(size_t n) { if(size()!=n) { this->_destroy_elements(); uninitialized_delete(_ptr);
-            _size=n; _ptr=uninitialized_new(_size); for(size_t i=0; i!=_size; ++i) { new (_ptr+i) T(); } } }
+    void reallocate(size_t n) { if(size()!=n) { Array<T> r(n); this->swap(r); } }
     //! \brief Efficiently swap two arrays.
     void swap(Array<T>& a) { std::swap(_size,a._size); std::swap(_ptr,a._ptr); }
 
@@ -205,16 +205,19 @@ public:
         resize(std::distance(first,last)); fill(first); }
 private:
     void _destroy_elements() { pointer curr=_ptr+_size; while(curr!=_ptr) { --curr; curr->~T(); } }
+    // Construct n elements at ptr; if this fails, destroy the elements constructed so far and release the storage.
+    template<class C> static void _construct(pointer ptr, size_t n, C construct) {
+        size_t i=0u;
+        try { while(i!=n) { construct(ptr+i,i); ++i; } }
+        catch(...) { while(i!=0u) { --i; (ptr+i)->~T(); } uninitialized_delete(ptr); throw; } }
     void _uninitialized_fill(const ValueType& x) {
-        pointer curr=_ptr; pointer end=_ptr+_size; while(curr!=end) { new (curr) T(x); ++curr; } }
+        _construct(_ptr,_size,[&](pointer p, size_t){ new (p) T(x); }); }
     template<class InputIterator> void _uninitialized_fill(InputIterator first) {
-        pointer curr=_ptr; pointer end=_ptr+_size;
-        while(curr!=end) { new (curr) T(*first); ++curr; ++first; } }
+        _construct(_ptr,_size,[&](pointer p, size_t){ new (p) T(*first); ++first; }); }
     template<class InputIterator, class Parameters> void _uninitialized_fill(InputIterator first, Parameters parameters) {
-        pointer curr=_ptr; pointer end=_ptr+_size;
-        while(curr!=end) { new (curr) T(*first,parameters); ++curr; ++first; } }
+        _construct(_ptr,_size,[&](pointer p, size_t){ new (p) T(*first,parameters); ++first; }); }
     template<class G> void _uninitialized_generate(G g) {
-        for(size_t i=0u; i!=this->size(); ++i) { new (_ptr+i) T(g(i)); } }
+        _construct(_ptr,_size,[&](pointer p, size_t i){ new (p) T(g(i)); }); }
 private:
     size_t _size;
     pointer _ptr;
-- 
2.43.0


From 0632605a65ee9db9a4904797f0ece82ea3218ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:11 +0000
Subject: [PATCH 12/45] fix: the byte size of a huge Array wrapped around,
 giving too small a storage

---
 include/array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index e660a62..fcaee3f 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -37,6 +37,7 @@
 
 #include <initializer_list>
 #include <iterator>
+#include <new>
 #include <stdexcept>
 #include <cassert>
 #include "metaprogramming.hpp"
@@ -52,7 +53,7 @@ struct Uninitialised { };
 template<class T>
 class Array {
 private:
-    static T* uninitialized_new(size_t n) { return static_cast<T*>(::operator new(n*sizeof(T))); }
+    static T* uninitialized_new(size_t n) { if(n>static_cast<size_t>(-1)/sizeof(T)) { throw std::bad_alloc(); } return static_cast<T*>(::operator new(n*sizeof(T))); }
     static void uninitialized_delete(T* p) { ::operator delete(p); }
 public:
     typedef T ValueType;
-- 
2.43.0


From 860cae2d9e4d508831e95656cc2aa453e6dfdc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:12 +0000
Subject: [PATCH 13/45] fix: stack_trace put cerr into a failed state at a
 frame without symbol name

---
 src/stack_trace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stack_trace.cpp b/src/stack_trace.cpp
index 022568c..23aa7f2 100644
--- a/src/stack_trace.cpp
+++ b/src/stack_trace.cpp
@@ -54,7 +54,7 @@ void stack_trace() {
             size_t length;
             int status;
             char* demangled = abi::__cxa_demangle(symbols[i], no_output_buffer, &length, &status);
-            std::cerr << (status == 0 ? demangled : info.dli_sname) << "\n";
+            std::cerr << (status == 0 ? demangled : info.dli_sname ? info.dli_sname : "??") << "\n";
             free(demangled);
         } else {
             std::cerr << i << " " << callstack[i] << "\n";
-- 
2.43.0


From 234b3abc508916665b458dae09edf0d5804a41d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:15 +0000
Subject: [PATCH 14/45] fix: HELPER_NOT_IMPLEMENTED used an undefined type

---
 include/macros.hpp | 378 ++++++++++++++++++++++-----------------------
 1 file changed, 189 insertions(+), 189 deletions(-)

diff --git a/include/macros.hpp b/include/macros.hpp
index 81ec20b..4d62b81 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -1,189 +1,189 @@
-/***************************************************************************
- *            macros.hpp
- *
- *  Copyright  2023  Luca Geretti
- *
- ****************************************************************************/
-
-/*
- * This file is part of Helper, under the MIT license.
- *
- * Permission is hereby granted, free of charge, to any person obtaining a copy
- * of this software and associated documentation files (the "Software"), to deal
- * in the Software without restriction, including without limitation the rights
- * to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
- * copies of the Software, and to permit persons to whom the Software is furnished
- * to do so, subject to the following conditions:
- *
- * The above copyright notice and this permission notice shall be included in all
- * copies or substantial portions of the Software.
- *
- * THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
- * IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY, FITNESS
- * FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR
- * COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER
- * IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
- * WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
- */
-
-
-/*! \file macros.hpp
- *  \brief
- */
-
-
-
-#ifndef HELPER_MACROS_HPP
-#define HELPER_MACROS_HPP
-
-#include <sstream>
-#include <stdexcept>
-
-#define HELPER_USING_CONSTRUCTORS(Class,Base) \
-    template<class T,typename std::enable_if<std::is_convertible<T,Base>::value,int>::type=0> \
-    Class(const T& t) : Base(t) { } \
-    template<class T,typename std::enable_if<std::is_constructible<T,Base>::value and not std::is_convertible<T,Base>::value,int>::type=0> \
-    explicit Class(const T& t) : Base(t) { } \
-    template<class ...Args> Class(Args&&... args) : Base(std::forward<Args>(args)...) { } \
-
-#define HELPER_THROW(except,func,msg)          \
-    { \
-        std::ostringstream ss; \
-        ss << #except " in " << func << ": " << msg;    \
-        throw except(ss.str()); \
-    } \
-
-#define HELPER_ASSERT(expression) \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
-        } \
-    } \
-
-
-#ifndef NDEBUG
-#define HELPER_DEBUG_ASSERT_MSG(expression,error) \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
-        } \
-    } \
-
-#else
-#define HELPER_DEBUG_ASSERT_MSG(expression,error) \
-    { }
-#endif
-
-
-#ifndef NDEBUG
-#define HELPER_DEBUG_ASSERT(expression) \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
-        } \
-    } \
-
-#else
-#define HELPER_DEBUG_ASSERT(expression) \
-    { }
-#endif
-
-
-#define HELPER_PRECONDITION_MSG(expression,error)             \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed.\n"<<"  "<<error); \
-        } \
-    } \
-
-#define HELPER_PRECONDITION(expression)             \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed."); \
-        } \
-    } \
-
-#ifndef NDEBUG
-#define HELPER_DEBUG_PRECONDITION(expression) \
-    { \
-        bool result = static_cast<bool>(expression); \
-        if(!result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Precondition `" << #expression << "' failed."); \
-        } \
-    } \
-
-#else
-#define HELPER_DEBUG_PRECONDITION(expression) \
-    { }
-#endif
-
-#define HELPER_FAIL_MSG(error)             \
-    { \
-        HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"ErrorTag "<<error); \
-    } \
-
-#define HELPER_ASSERT_MSG(expression,error)             \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
-        } \
-    } \
-
-#define HELPER_ASSERT_EQUAL(expression1,expression2)    \
-    { \
-        bool assertion_result = static_cast<bool>((expression1) == (expression2));       \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression1 << "==" << #expression2 << "' failed.\n"<<"  "<<expression1<<" != "<<expression2); \
-        } \
-    } \
-
-#define HELPER_NOT_IMPLEMENTED                 \
-    throw std::runtime_error(StringType("Not implemented: ")+HELPER_PRETTY_FUNCTION);
-
-#define HELPER_DEPRECATED(fn,msg)          \
-    static bool first_time=true; \
-    if(first_time) { \
-        first_time=false; \
-        std::cerr << "DEPRECATED: Function " << #fn << " is deprecated. " << #msg << std::endl; \
-    } \
-
-#define HELPER_NOTIFY(msg)          \
-    {                                                                \
-        std::cerr << "NOTIFICATION: " << msg << "" << std::endl;                \
-    }
-
-#define HELPER_WARN(msg)          \
-    {                                                                \
-        std::cerr << "WARNING: " << msg << "" << std::endl;                \
-    }
-
-#define HELPER_WARN_ONCE(msg)          \
-    static bool first_time=true; \
-    if(first_time) { \
-        first_time=false; \
-        std::cerr << "WARNING: " << msg << "" << std::endl; \
-    } \
-
-#define HELPER_ERROR(msg)          \
-    {                                                                \
-        std::cerr << "ERROR: " << msg << "" << std::endl;                \
-    }
-                                                                  \
-#if defined(linux) || defined(__linux) || defined(__linux__)
-#define HELPER_PRETTY_FUNCTION __PRETTY_FUNCTION__
-#elif defined(_WIN32) || defined(__WIN32__) || defined(WIN32)
-#define HELPER_PRETTY_FUNCTION __FUNCTION__
-#elif defined(darwin) || defined(__darwin) || defined(__darwin__) || defined(__APPLE__)
-#define HELPER_PRETTY_FUNCTION __PRETTY_FUNCTION__
-#else
-#define HELPER_PRETTY_FUNCTION ""
-#endif
-
-
-#endif // HELPER_MACROS_HPP
+/***************************************************************************
+ *            macros.hpp
+ *
+ *  Copyright  2023  Luca Geretti
+ *
+ ****************************************************************************/
+
+/*
+ * This file is part of Helper, under the MIT license.
+ *
+ * Permission is hereby granted, free of charge, to any person obtaining a copy
+ * of this software and associated documentation files (the "Software"), to deal
+ * in the Software without restriction, including without limitation the rights
+ * to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+ * copies of the Software, and to permit persons to whom the Software is furnished
+ * to do so, subject to the following conditions:
+ *
+ * The above copyright notice and this permission notice shall be included in all
+ * copies or substantial portions of the Software.
+ *
+ * THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+ * IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY, FITNESS
+ * FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR
+ * COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER
+ * IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
+ * WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
+ */
+
+
+/*! \file macros.hpp
+ *  \brief
+ */
+
+
+
+#ifndef HELPER_MACROS_HPP
+#define HELPER_MACROS_HPP
+
+#include <sstream>
+#include <stdexcept>
+
+#define HELPER_USING_CONSTRUCTORS(Class,Base) \
+    template<class T,typename std::enable_if<std::is_convertible<T,Base>::value,int>::type=0> \
+    Class(const T& t) : Base(t) { } \
+    template<class T,typename std::enable_if<std::is_constructible<T,Base>::value and not std::is_convertible<T,Base>::value,int>::type=0> \
+    explicit Class(const T& t) : Base(t) { } \
+    template<class ...Args> Class(Args&&... args) : Base(std::forward<Args>(args)...) { } \
+
+#define HELPER_THROW(except,func,msg)          \
+    { \
+        std::ostringstream ss; \
+        ss << #except " in " << func << ": " << msg;    \
+        throw except(ss.str()); \
+    } \
+
+#define HELPER_ASSERT(expression) \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
+        } \
+    } \
+
+
+#ifndef NDEBUG
+#define HELPER_DEBUG_ASSERT_MSG(expression,error) \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
+        } \
+    } \
+
+#else
+#define HELPER_DEBUG_ASSERT_MSG(expression,error) \
+    { }
+#endif
+
+
+#ifndef NDEBUG
+#define HELPER_DEBUG_ASSERT(expression) \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
+        } \
+    } \
+
+#else
+#define HELPER_DEBUG_ASSERT(expression) \
+    { }
+#endif
+
+
+#define HELPER_PRECONDITION_MSG(expression,error)             \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed.\n"<<"  "<<error); \
+        } \
+    } \
+
+#define HELPER_PRECONDITION(expression)             \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed."); \
+        } \
+    } \
+
+#ifndef NDEBUG
+#define HELPER_DEBUG_PRECONDITION(expression) \
+    { \
+        bool result = static_cast<bool>(expression); \
+        if(!result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Precondition `" << #expression << "' failed."); \
+        } \
+    } \
+
+#else
+#define HELPER_DEBUG_PRECONDITION(expression) \
+    { }
+#endif
+
+#define HELPER_FAIL_MSG(error)             \
+    { \
+        HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"ErrorTag "<<error); \
+    } \
+
+#define HELPER_ASSERT_MSG(expression,error)             \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
+        } \
+    } \
+
+#define HELPER_ASSERT_EQUAL(expression1,expression2)    \
+    { \
+        bool assertion_result = static_cast<bool>((expression1) == (expression2));       \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression1 << "==" << #expression2 << "' failed.\n"<<"  "<<expression1<<" != "<<expression2); \
+        } \
+    } \
+
+#define HELPER_NOT_IMPLEMENTED                 \
+    throw std::runtime_error(std::string("Not implemented: ")+HELPER_PRETTY_FUNCTION);
+
+#define HELPER_DEPRECATED(fn,msg)          \
+    static bool first_time=true; \
+    if(first_time) { \
+        first_time=false; \
+        std::cerr << "DEPRECATED: Function " << #fn << " is deprecated. " << #msg << std::endl; \
+    } \
+
+#define HELPER_NOTIFY(msg)          \
+    {                                                                \
+        std::cerr << "NOTIFICATION: " << msg << "" << std::endl;                \
+    }
+
+#define HELPER_WARN(msg)          \
+    {                                                                \
+        std::cerr << "WARNING: " << msg << "" << std::endl;                \
+    }
+
+#define HELPER_WARN_ONCE(msg)          \
+    static bool first_time=true; \
+    if(first_time) { \
+        first_time=false; \
+        std::cerr << "WARNING: " << msg << "" << std::endl; \
+    } \
+
+#define HELPER_ERROR(msg)          \
+    {                                                                \
+        std::cerr << "ERROR: " << msg << "" << std::endl;                \
+    }
+                                                                  \
+#if defined(linux) || defined(__linux) || defined(__linux__)
+#define HELPER_PRETTY_FUNCTION __PRETTY_FUNCTION__
+#elif defined(_WIN32) || defined(__WIN32__) || defined(WIN32)
+#define HELPER_PRETTY_FUNCTION __FUNCTION__
+#elif defined(darwin) || defined(__darwin) || defined(__darwin__) || defined(__APPLE__)
+#define HELPER_PRETTY_FUNCTION __PRETTY_FUNCTION__
+#else
+#define HELPER_PRETTY_FUNCTION ""
+#endif
+
+
+#endif // HELPER_MACROS_HPP
-- 
2.43.0


From 2208c7a8c16dfe83ef9709ba2861c51faaa0f664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:17 +0000
Subject: [PATCH 15/45] fix: HELPER_DEBUG_PRECONDITION captured a condition
 using a variable named result

---
 include/macros.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/macros.hpp b/include/macros.hpp
index 4d62b81..159dd20 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -111,8 +111,8 @@
 #ifndef NDEBUG
 #define HELPER_DEBUG_PRECONDITION(expression) \
     { \
-        bool result = static_cast<bool>(expression); \
-        if(!result) { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Precondition `" << #expression << "' failed."); \
         } \
     } \
-- 
2.43.0


From e2f289f3c89ac40e21c981fd7f2884c8c627bd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:20 +0000
Subject: [PATCH 16/45] fix: Stopwatch measured with the adjustable wall clock

---
 include/stopwatch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stopwatch.hpp b/include/stopwatch.hpp
index 3686c76..70932d7 100644
--- a/include/stopwatch.hpp
+++ b/include/stopwatch.hpp
@@ -43,7 +43,7 @@ using Microseconds = std::chrono::microseconds;
 
 template<class D> class Stopwatch {
 public:
-    using ResolutionType = std::chrono::high_resolution_clock;
+    using ResolutionType = std::chrono::steady_clock;
     using TimePointType = std::chrono::time_point<ResolutionType>;
 
     Stopwatch() { restart(); }
-- 
2.43.0


From 811ede05261877c092d6eead7738ce28f89e786b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:21 +0000
Subject: [PATCH 17/45] fix: dynamic_handle_cast did not compile for handles to
 a mutable interface

---
 include/handle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/handle.hpp b/include/handle.hpp
index a05ece2..4b98979 100644
--- a/include/handle.hpp
+++ b/include/handle.hpp
@@ -129,7 +129,7 @@ inline void write_error(ostream& os, const char* f, const WritableInterface* w,
 template<class D, class B> D dynamic_handle_cast(B const& h) {
     typedef typename B::Interface BI;
     typedef typename D::Interface DI;
-    if constexpr (Same<decltype(h.managed_pointer()),shared_ptr<BI>>) {
+    if constexpr (not std::is_const<BI>::value) {
         shared_ptr<DI> p=std::dynamic_pointer_cast<DI>(h.managed_pointer());
         if(p) { return D(Handle<DI>(p)); }
     } else {
-- 
2.43.0


From 6a7bbc243fd18b613b10671066690bc36bed7010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:42 +0000
Subject: [PATCH 18/45] fix: undefined declarations made dynamic_handle_cast of
 a plain Handle ambiguous

---
 include/handle.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/include/handle.hpp b/include/handle.hpp
index 4b98979..eabaf9b 100644
--- a/include/handle.hpp
+++ b/include/handle.hpp
@@ -48,8 +48,6 @@ using std::shared_ptr;
 template<class T> struct HandleObject { };
 
 template<class I> class Handle;
-template<class T, class I> const T& dynamic_handle_cast(const Handle<I>& h);
-template<class T, class I> T& dynamic_handle_cast(Handle<I>& h);
 
 template<class T, class I> class Wrapper
     : public virtual I, public T
@@ -112,8 +110,6 @@ template<class I> class Handle {
   private:
     template<class T, class II> friend T& dynamic_handle_extract(Handle<II>& h);
     template<class T, class II> friend const T& dynamic_handle_extract(const Handle<II>& h);
-    template<class D, class B> friend Handle<D> dynamic_handle_cast(Handle<B>& h);
-    template<class D, class B> friend const Handle<D> dynamic_handle_cast(const Handle<B>& h);
 };
 
 template<class T, class... AS> Handle<T> make_handle(AS&& ... as) {
-- 
2.43.0


From 2a4036e2dba8455aa4de2d6fee220186147885c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:43 +0000
Subject: [PATCH 19/45] fix: binary_word.hpp used undefined string types and
 did not compile

---
 include/binary_word.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index 98fb80c..3dd4329 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -77,6 +77,8 @@
 #include <limits>
 #include <vector>
 #include <iosfwd>
+#include <sstream>
+#include <string>
 #include <stdexcept>
 
 #include "macros.hpp"
@@ -87,6 +89,9 @@ namespace Helper {
 using std::ostream;
 using std::istream;
 
+using StringType = std::string;
+using StringStream = std::stringstream;
+
 /*! \brief A statically-allocated binary word of fixed maximum length.
  */
 class BinaryWord : public std::vector<bool> {
-- 
2.43.0


From f288ca3780a74921ff953746e19e808147e5f76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:44 +0000
Subject: [PATCH 20/45] fix: appending a BinaryWord to itself did not terminate

---
 include/binary_word.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index 3dd4329..2b88ed1 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -182,7 +182,8 @@ inline void BinaryWord::append( const bool& binarySymbol ) {
 }
 
 inline void BinaryWord::append( const BinaryWord& binaryWord ) {
-    for( size_t i = 0; i < binaryWord.size() ; i++ ){
+    const size_t size = binaryWord.size();
+    for( size_t i = 0; i < size ; i++ ){
         this->push_back( binaryWord[i] );
     }
 }
-- 
2.43.0


From d1354660af56e08a1af7953e210db86c378a53a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:45 +0000
Subject: [PATCH 21/45] fix: writing a BinaryWord switched the stream to
 boolalpha

---
 include/binary_word.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index 2b88ed1..57e45e0 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -235,11 +235,9 @@ inline ostream& operator<<(ostream& os, const BinaryWord& bw) {
     if( bw.empty() ) {
         return os << 'e';
     }
-    os << std::noboolalpha;
     for(size_t i=0; i!=bw.size(); ++i) {
-        os << bw[i];
+        os << ( bw[i] ? '1' : '0' );
     }
-    os << std::boolalpha;
     return os;
 }
 
-- 
2.43.0


From ed0720ae17e4f02d7347057c319d84baf60c6fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:46 +0000
Subject: [PATCH 22/45] fix: reading a BinaryWord from empty text inspected an
 uninitialised character

---
 include/binary_word.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index 57e45e0..8a24c5b 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -196,7 +196,7 @@ inline istream& operator>>(istream& input_stream, BinaryWord& binary_word) {
     //new data and the old one is not needed.
     binary_word.clear();
     //Read the first stream symbol to check the input format
-    char symbol;
+    char symbol = '\0';
     input_stream >> symbol;
     if( symbol == '[' ) {
         //If it is a standard std:vector input then put
-- 
2.43.0


From 0d4c04b7a2cf95ee5806df006b1d75ecd1ccaf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:29 +0000
Subject: [PATCH 23/45] fix: reading a BinaryWord that ends the text left the
 stream in a failed state

---
 include/binary_word.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index 8a24c5b..03994f8 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -208,6 +208,7 @@ inline istream& operator>>(istream& input_stream, BinaryWord& binary_word) {
         //Otherwise read a sequence of 0 and 1.
         while( input_stream && ( symbol =='0' || symbol =='1' ) ) {
             binary_word.push_back( symbol == '0' ? 0 : 1);
+            if( input_stream.peek() == std::char_traits<char>::eof() ) { return input_stream; }
             input_stream.get( symbol );
         }
         input_stream.putback( symbol );
-- 
2.43.0


From c5896e21237c839f45e968d6fa100325b3d7d6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:31 +0000
Subject: [PATCH 24/45] fix: reading a BinaryWord did not consume the e that is
 written for an empty word

---
 include/binary_word.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index 03994f8..53ab3cd 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -204,8 +204,8 @@ inline istream& operator>>(istream& input_stream, BinaryWord& binary_word) {
         std::vector<bool> & bool_vector = binary_word;
         input_stream.putback( symbol );
         input_stream >> bool_vector;
-    } else {
-        //Otherwise read a sequence of 0 and 1.
+    } else if( symbol != 'e' ) {
+        //Unless it is the empty word, read a sequence of 0 and 1.
         while( input_stream && ( symbol =='0' || symbol =='1' ) ) {
             binary_word.push_back( symbol == '0' ? 0 : 1);
             if( input_stream.peek() == std::char_traits<char>::eof() ) { return input_stream; }
-- 
2.43.0


From 62f7435f6c4534bad77410d178315e0ae16d5771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:54 +0000
Subject: [PATCH 25/45] fix: restore the CRLF line endings of macros.hpp that
 234b3ab converted by mistake

---
 include/macros.hpp | 378 ++++++++++++++++++++++-----------------------
 1 file changed, 189 insertions(+), 189 deletions(-)

diff --git a/include/macros.hpp b/include/macros.hpp
index 159dd20..3282d79 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -1,189 +1,189 @@
-/***************************************************************************
- *            macros.hpp
- *
- *  Copyright  2023  Luca Geretti
- *
- ****************************************************************************/
-
-/*
- * This file is part of Helper, under the MIT license.
- *
- * Permission is hereby granted, free of charge, to any person obtaining a copy
- * of this software and associated documentation files (the "Software"), to deal
- * in the Software without restriction, including without limitation the rights
- * to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
- * copies of the Software, and to permit persons to whom the Software is furnished
- * to do so, subject to the following conditions:
- *
- * The above copyright notice and this permission notice shall be included in all
- * copies or substantial portions of the Software.
- *
- * THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
- * IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY, FITNESS
- * FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR
- * COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER
- * IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
- * WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
- */
-
-
-/*! \file macros.hpp
- *  \brief
- */
-
-
-
-#ifndef HELPER_MACROS_HPP
-#define HELPER_MACROS_HPP
-
-#include <sstream>
-#include <stdexcept>
-
-#define HELPER_USING_CONSTRUCTORS(Class,Base) \
-    template<class T,typename std::enable_if<std::is_convertible<T,Base>::value,int>::type=0> \
-    Class(const T& t) : Base(t) { } \
-    template<class T,typename std::enable_if<std::is_constructible<T,Base>::value and not std::is_convertible<T,Base>::value,int>::type=0> \
-    explicit Class(const T& t) : Base(t) { } \
-    template<class ...Args> Class(Args&&... args) : Base(std::forward<Args>(args)...) { } \
-
-#define HELPER_THROW(except,func,msg)          \
-    { \
-        std::ostringstream ss; \
-        ss << #except " in " << func << ": " << msg;    \
-        throw except(ss.str()); \
-    } \
-
-#define HELPER_ASSERT(expression) \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
-        } \
-    } \
-
-
-#ifndef NDEBUG
-#define HELPER_DEBUG_ASSERT_MSG(expression,error) \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
-        } \
-    } \
-
-#else
-#define HELPER_DEBUG_ASSERT_MSG(expression,error) \
-    { }
-#endif
-
-
-#ifndef NDEBUG
-#define HELPER_DEBUG_ASSERT(expression) \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
-        } \
-    } \
-
-#else
-#define HELPER_DEBUG_ASSERT(expression) \
-    { }
-#endif
-
-
-#define HELPER_PRECONDITION_MSG(expression,error)             \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed.\n"<<"  "<<error); \
-        } \
-    } \
-
-#define HELPER_PRECONDITION(expression)             \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed."); \
-        } \
-    } \
-
-#ifndef NDEBUG
-#define HELPER_DEBUG_PRECONDITION(expression) \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Precondition `" << #expression << "' failed."); \
-        } \
-    } \
-
-#else
-#define HELPER_DEBUG_PRECONDITION(expression) \
-    { }
-#endif
-
-#define HELPER_FAIL_MSG(error)             \
-    { \
-        HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"ErrorTag "<<error); \
-    } \
-
-#define HELPER_ASSERT_MSG(expression,error)             \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
-        } \
-    } \
-
-#define HELPER_ASSERT_EQUAL(expression1,expression2)    \
-    { \
-        bool assertion_result = static_cast<bool>((expression1) == (expression2));       \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression1 << "==" << #expression2 << "' failed.\n"<<"  "<<expression1<<" != "<<expression2); \
-        } \
-    } \
-
-#define HELPER_NOT_IMPLEMENTED                 \
-    throw std::runtime_error(std::string("Not implemented: ")+HELPER_PRETTY_FUNCTION);
-
-#define HELPER_DEPRECATED(fn,msg)          \
-    static bool first_time=true; \
-    if(first_time) { \
-        first_time=false; \
-        std::cerr << "DEPRECATED: Function " << #fn << " is deprecated. " << #msg << std::endl; \
-    } \
-
-#define HELPER_NOTIFY(msg)          \
-    {                                                                \
-        std::cerr << "NOTIFICATION: " << msg << "" << std::endl;                \
-    }
-
-#define HELPER_WARN(msg)          \
-    {                                                                \
-        std::cerr << "WARNING: " << msg << "" << std::endl;                \
-    }
-
-#define HELPER_WARN_ONCE(msg)          \
-    static bool first_time=true; \
-    if(first_time) { \
-        first_time=false; \
-        std::cerr << "WARNING: " << msg << "" << std::endl; \
-    } \
-
-#define HELPER_ERROR(msg)          \
-    {                                                                \
-        std::cerr << "ERROR: " << msg << "" << std::endl;                \
-    }
-                                                                  \
-#if defined(linux) || defined(__linux) || defined(__linux__)
-#define HELPER_PRETTY_FUNCTION __PRETTY_FUNCTION__
-#elif defined(_WIN32) || defined(__WIN32__) || defined(WIN32)
-#define HELPER_PRETTY_FUNCTION __FUNCTION__
-#elif defined(darwin) || defined(__darwin) || defined(__darwin__) || defined(__APPLE__)
-#define HELPER_PRETTY_FUNCTION __PRETTY_FUNCTION__
-#else
-#define HELPER_PRETTY_FUNCTION ""
-#endif
-
-
-#endif // HELPER_MACROS_HPP
+/***************************************************************************
+ *            macros.hpp
+ *
+ *  Copyright  2023  Luca Geretti
+ *
+ ****************************************************************************/
+
+/*
+ * This file is part of Helper, under the MIT license.
+ *
+ * Permission is hereby granted, free of charge, to any person obtaining a copy
+ * of this software and associated documentation files (the "Software"), to deal
+ * in the Software without restriction, including without limitation the rights
+ * to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+ * copies of the Software, and to permit persons to whom the Software is furnished
+ * to do so, subject to the following conditions:
+ *
+ * The above copyright notice and this permission notice shall be included in all
+ * copies or substantial portions of the Software.
+ *
+ * THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+ * IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY, FITNESS
+ * FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR
+ * COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER
+ * IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
+ * WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
+ */
+
+
+/*! \file macros.hpp
+ *  \brief
+ */
+
+
+
+#ifndef HELPER_MACROS_HPP
+#define HELPER_MACROS_HPP
+
+#include <sstream>
+#include <stdexcept>
+
+#define HELPER_USING_CONSTRUCTORS(Class,Base) \
+    template<class T,typename std::enable_if<std::is_convertible<T,Base>::value,int>::type=0> \
+    Class(const T& t) : Base(t) { } \
+    template<class T,typename std::enable_if<std::is_constructible<T,Base>::value and not std::is_convertible<T,Base>::value,int>::type=0> \
+    explicit Class(const T& t) : Base(t) { } \
+    template<class ...Args> Class(Args&&... args) : Base(std::forward<Args>(args)...) { } \
+
+#define HELPER_THROW(except,func,msg)          \
+    { \
+        std::ostringstream ss; \
+        ss << #except " in " << func << ": " << msg;    \
+        throw except(ss.str()); \
+    } \
+
+#define HELPER_ASSERT(expression) \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
+        } \
+    } \
+
+
+#ifndef NDEBUG
+#define HELPER_DEBUG_ASSERT_MSG(expression,error) \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
+        } \
+    } \
+
+#else
+#define HELPER_DEBUG_ASSERT_MSG(expression,error) \
+    { }
+#endif
+
+
+#ifndef NDEBUG
+#define HELPER_DEBUG_ASSERT(expression) \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
+        } \
+    } \
+
+#else
+#define HELPER_DEBUG_ASSERT(expression) \
+    { }
+#endif
+
+
+#define HELPER_PRECONDITION_MSG(expression,error)             \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed.\n"<<"  "<<error); \
+        } \
+    } \
+
+#define HELPER_PRECONDITION(expression)             \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed."); \
+        } \
+    } \
+
+#ifndef NDEBUG
+#define HELPER_DEBUG_PRECONDITION(expression) \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Precondition `" << #expression << "' failed."); \
+        } \
+    } \
+
+#else
+#define HELPER_DEBUG_PRECONDITION(expression) \
+    { }
+#endif
+
+#define HELPER_FAIL_MSG(error)             \
+    { \
+        HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"ErrorTag "<<error); \
+    } \
+
+#define HELPER_ASSERT_MSG(expression,error)             \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
+        } \
+    } \
+
+#define HELPER_ASSERT_EQUAL(expression1,expression2)    \
+    { \
+        bool assertion_result = static_cast<bool>((expression1) == (expression2));       \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression1 << "==" << #expression2 << "' failed.\n"<<"  "<<expression1<<" != "<<expression2); \
+        } \
+    } \
+
+#define HELPER_NOT_IMPLEMENTED                 \
+    throw std::runtime_error(std::string("Not implemented: ")+HELPER_PRETTY_FUNCTION);
+
+#define HELPER_DEPRECATED(fn,msg)          \
+    static bool first_time=true; \
+    if(first_time) { \
+        first_time=false; \
+        std::cerr << "DEPRECATED: Function " << #fn << " is deprecated. " << #msg << std::endl; \
+    } \
+
+#define HELPER_NOTIFY(msg)          \
+    {                                                                \
+        std::cerr << "NOTIFICATION: " << msg << "" << std::endl;                \
+    }
+
+#define HELPER_WARN(msg)          \
+    {                                                                \
+        std::cerr << "WARNING: " << msg << "" << std::endl;                \
+    }
+
+#define HELPER_WARN_ONCE(msg)          \
+    static bool first_time=true; \
+    if(first_time) { \
+        first_time=false; \
+        std::cerr << "WARNING: " << msg << "" << std::endl; \
+    } \
+
+#define HELPER_ERROR(msg)          \
+    {                                                                \
+        std::cerr << "ERROR: " << msg << "" << std::endl;                \
+    }
+                                                                  \
+#if defined(linux) || defined(__linux) || defined(__linux__)
+#define HELPER_PRETTY_FUNCTION __PRETTY_FUNCTION__
+#elif defined(_WIN32) || defined(__WIN32__) || defined(WIN32)
+#define HELPER_PRETTY_FUNCTION __FUNCTION__
+#elif defined(darwin) || defined(__darwin) || defined(__darwin__) || defined(__APPLE__)
+#define HELPER_PRETTY_FUNCTION __PRETTY_FUNCTION__
+#else
+#define HELPER_PRETTY_FUNCTION ""
+#endif
+
+
+#endif // HELPER_MACROS_HPP
-- 
2.43.0


From 2fae88efac52321b5c940b4d25a0cba121848f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:29 +0000
Subject: [PATCH 26/45] fix: mutable dynamic_handle_extract gave access to an
 object shared with other handles

---
 include/handle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/handle.hpp b/include/handle.hpp
index eabaf9b..9671450 100644
--- a/include/handle.hpp
+++ b/include/handle.hpp
@@ -154,7 +154,7 @@ template<class T, class I> const T& dynamic_handle_extract(const Handle<I>& h) {
 }
 
 template<class T, class I> T& dynamic_handle_extract(Handle<I>& h) {
-    const I* i=h.raw_const_pointer();
+    const I* i=h.raw_pointer();
     const T* p=dynamic_cast<const T*>(i);
     if(p) { return const_cast<T&>(*p); }
     p=dynamic_cast<const Wrapper<T,I>*>(i);
-- 
2.43.0


From 90ce3671918659c61a4f98c4b770347abb6d4983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:39 +0000
Subject: [PATCH 27/45] fix: make_array and make_list of a List gave a
 one-element container holding the List

---
 include/container.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/container.hpp b/include/container.hpp
index b2ec606..b6bfda1 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -317,10 +317,12 @@ template<class T> Set<T> duplicate_elements(const std::vector<T>& lst) {
 
 template<class T> inline Array<T> make_array(const T& t) { return Array<T>(1u,t); }
 template<class T> inline Array<T> make_array(const std::vector<T>& vec) { return Array<T>(vec.begin(),vec.end()); }
+template<class T> inline Array<T> make_array(const List<T>& lst) { return Array<T>(lst.begin(),lst.end()); }
 template<class T> inline Array<T> make_array(const Array<T>& ary) { return Array<T>(ary); }
 
 template<class T> inline List<T> make_list(const T& t) { return List<T>(1u,t); }
 template<class T> inline List<T> make_list(const std::vector<T>& vec) { return List<T>(vec); }
+template<class T> inline List<T> make_list(const List<T>& lst) { return List<T>(lst); }
 template<class T> inline List<T> make_list(const Array<T>& ary) { return List<T>(ary.begin(),ary.end()); }
 template<class T> inline List<T> make_list(const Set<T>& set) { return List<T>(set.begin(),set.end()); }
 
-- 
2.43.0


From acd4da02d0ce5feb930367089e2c4ebcb4bf4053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:11 +0000
Subject: [PATCH 28/45] fix: a count and value of one integer type, or a value
 to fill, were taken for iterators by Array

---
 include/array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array.hpp b/include/array.hpp
index fcaee3f..d9ccd1e 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -99,7 +99,7 @@ public:
         this->_uninitialized_generate(g); }
 
     //! \brief Constructs an Array from the range \a first to \a last.
-    template<class ForwardIterator>
+    template<class ForwardIterator> requires requires(ForwardIterator i) { *i; }
     Array(ForwardIterator first, ForwardIterator last)
             : _size(static_cast<size_t>(std::distance(first,last))), _ptr(uninitialized_new(_size)) {
         assert(std::distance(first,last) >= 0);
@@ -199,7 +199,7 @@ public:
     void fill(const ValueType& x) {
         ValueType* curr=begin(); ValueType* end=this->end(); while(curr!=end) { *curr=x; ++curr; } }
     //! \brief Fills the Array from the sequence starting at \a first.
-    template<class InputIterator> void fill(InputIterator first) {
+    template<class InputIterator> requires requires(InputIterator i) { *i; } void fill(InputIterator first) {
         ValueType* curr=begin(); ValueType* end=this->end(); while(curr!=end) { *curr=*first; ++curr; ++first; } }
     //! \brief Assigns the sequence from \a first to \a last.
     template<class ForwardIterator> void assign(ForwardIterator first, ForwardIterator last) {
-- 
2.43.0


From e46b97206fd2dead58618e5a49ffe9609db06e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:06 +0000
Subject: [PATCH 29/45] fix: objects with a _write function outside
 WritableInterface were never recognised as writable

---
 include/writable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/writable.hpp b/include/writable.hpp
index 9a0708e..732520f 100644
--- a/include/writable.hpp
+++ b/include/writable.hpp
@@ -53,7 +53,7 @@ class WritableInterface {
 };
 inline ostream& operator<<(ostream& os, const WritableInterface& w) { w._write(os); return os; }
 
-template<class T, class = decltype(declval<T>()._write(declval<ostream>()))> True has_write(int);
+template<class T, class = decltype(declval<T const&>()._write(declval<ostream&>()))> True has_write(int);
 template<class T> False has_write(...);
 template<class T, class = Fallback> struct IsWritable : decltype(has_write<T>(1)) { };
 
-- 
2.43.0


From 16f27b6bb142e660078c3cb6a9bbb4b77ad5bd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:30 +0000
Subject: [PATCH 30/45] fix: read_sequence accepted a lone opening delimiter
 when it equals the closing one

---
 include/stlio.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stlio.hpp b/include/stlio.hpp
index 72d5bbd..11a7dce 100644
--- a/include/stlio.hpp
+++ b/include/stlio.hpp
@@ -161,6 +161,9 @@ read_sequence(istream& is, Container& v,
 
         /* Handle case of empty list */
         is >> c;
+        if(is.fail()) {
+            throw std::ios_base::failure("Helper::Base::read_vector: End-of-file reached");
+        }
         if(c != closing) {
             is.putback(c);
             c=separator;
-- 
2.43.0


From f0ed54a6eeba29aa057f2a035bc14ab2ff1eb850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:40:35 +0000
Subject: [PATCH 31/45] fix: a message mentioning a variable named ss was
 written from the stream inside HELPER_THROW

---
 include/macros.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/macros.hpp b/include/macros.hpp
index 3282d79..e343772 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -48,9 +48,9 @@
 
 #define HELPER_THROW(except,func,msg)          \
     { \
-        std::ostringstream ss; \
-        ss << #except " in " << func << ": " << msg;    \
-        throw except(ss.str()); \
+        std::ostringstream throw_message; \
+        throw_message << #except " in " << func << ": " << msg;    \
+        throw except(throw_message.str()); \
     } \
 
 #define HELPER_ASSERT(expression) \
-- 
2.43.0


From 37c284460f7f7943fe6772e8b31d2a2fb088437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:40:39 +0000
Subject: [PATCH 32/45] fix: once-only notification macros could be used only
 once in a scope and not as the body of an if

---
 include/macros.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/macros.hpp b/include/macros.hpp
index e343772..ce28091 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -147,10 +147,12 @@
     throw std::runtime_error(std::string("Not implemented: ")+HELPER_PRETTY_FUNCTION);
 
 #define HELPER_DEPRECATED(fn,msg)          \
-    static bool first_time=true; \
-    if(first_time) { \
-        first_time=false; \
-        std::cerr << "DEPRECATED: Function " << #fn << " is deprecated. " << #msg << std::endl; \
+    { \
+        static bool first_time=true; \
+        if(first_time) { \
+            first_time=false; \
+            std::cerr << "DEPRECATED: Function " << #fn << " is deprecated. " << #msg << std::endl; \
+        } \
     } \
 
 #define HELPER_NOTIFY(msg)          \
@@ -164,10 +166,12 @@
     }
 
 #define HELPER_WARN_ONCE(msg)          \
-    static bool first_time=true; \
-    if(first_time) { \
-        first_time=false; \
-        std::cerr << "WARNING: " << msg << "" << std::endl; \
+    { \
+        static bool first_time=true; \
+        if(first_time) { \
+            first_time=false; \
+            std::cerr << "WARNING: " << msg << "" << std::endl; \
+        } \
     } \
 
 #define HELPER_ERROR(msg)          \
-- 
2.43.0


From 88f6963f0111e803c19ff05a25b0252c3e0e7685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:40:42 +0000
Subject: [PATCH 33/45] fix: HELPER_ASSERT_EQUAL did not compile for operands
 with an operator of low precedence

---
 include/macros.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/macros.hpp b/include/macros.hpp
index ce28091..1b621d7 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -139,7 +139,7 @@
     { \
         bool assertion_result = static_cast<bool>((expression1) == (expression2));       \
         if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression1 << "==" << #expression2 << "' failed.\n"<<"  "<<expression1<<" != "<<expression2); \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression1 << "==" << #expression2 << "' failed.\n"<<"  "<<(expression1)<<" != "<<(expression2)); \
         } \
     } \
 
-- 
2.43.0


From c9294dc88df8467d448cb7478938060f41a6a092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:49:06 +0000
Subject: [PATCH 34/45] fix: HELPER_TEST_WITHIN regrouped operands with
 operators of low precedence

---
 include/test.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/test.hpp b/include/test.hpp
index c5b395c..f3c2198 100644
--- a/include/test.hpp
+++ b/include/test.hpp
@@ -306,8 +306,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_WITHIN(expression,expected,tolerance)                         \
     {                                                                   \
         std::cout << #expression << " ~ " << #expected << ": " << std::flush; \
-        auto error=abs(expression-expected); \
-        bool ok = (error <= tolerance);                       \
+        auto error=abs((expression)-(expected)); \
+        bool ok = (error <= (tolerance));                     \
         if(ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
-- 
2.43.0


From 643f45939bccf77ecedb44e9ac73583058cb8651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:50:18 +0000
Subject: [PATCH 35/45] fix: test macros silently misjudged operands named like
 their local variables

---
 include/test.hpp | 84 ++++++++++++++++++++++++------------------------
 1 file changed, 42 insertions(+), 42 deletions(-)

diff --git a/include/test.hpp b/include/test.hpp
index f3c2198..7c0bc2e 100644
--- a/include/test.hpp
+++ b/include/test.hpp
@@ -184,8 +184,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_ASSERT(expression)                                 \
     {                                                                   \
         std::cout << #expression << ": " << std::flush;                 \
-        auto result = (expression);                                     \
-        if(result) {                                                    \
+        auto helper_test_result = (expression);                         \
+        if(helper_test_result) {                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -199,8 +199,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_CHECK_WARN(expression,expected)                         \
     {                                                                   \
         std::cout << #expression << ": " << std::flush; \
-        bool ok = testing_check(std::cout,expression,expected);         \
-        if(ok) {                                                        \
+        bool helper_test_ok = testing_check(std::cout,expression,expected); \
+        if(helper_test_ok) {                                            \
             std::cout << "\n" << std::endl;                             \
         } else {                                                        \
             std::cout << "\nWARNING: expected " << #expression << " = " << #expected << " == " << (expected) << " \n" << std::endl; \
@@ -213,8 +213,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_CHECK(expression,expected)                         \
     {                                                                   \
         std::cout << #expression << ": " << std::flush; \
-        bool ok = testing_check(std::cout,expression,expected);         \
-        if(ok) {                                                        \
+        bool helper_test_ok = testing_check(std::cout,expression,expected); \
+        if(helper_test_ok) {                                            \
             std::cout << "\n" << std::endl;                             \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -228,8 +228,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_SAME(expression1,expression2)                         \
     {                                                                   \
         std::cout << "same(" << #expression1 << "," << #expression2 << "): " << std::flush; \
-        bool ok = same((expression1), (expression2));                       \
-        if(ok) {                                                        \
+        bool helper_test_ok = same((expression1), (expression2));           \
+        if(helper_test_ok) {                                            \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -243,8 +243,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_SAME_AS(expression,expected)                         \
     {                                                                   \
         std::cout << #expression << " == " << #expected << ": " << std::flush; \
-        bool ok = same((expression), (expected));                       \
-        if(ok) {                                                        \
+        bool helper_test_ok = same((expression), (expected));           \
+        if(helper_test_ok) {                                            \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -260,8 +260,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_EQUAL(expression1,expression2)                         \
     {                                                                   \
         std::cout << #expression1 << " == " << #expression2 << ": " << std::flush; \
-        bool ok = (expression1) == (expression2);                       \
-        if(ok) {                                                        \
+        bool helper_test_ok = (expression1) == (expression2);           \
+        if(helper_test_ok) {                                            \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -275,8 +275,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_NOT_EQUAL(expression1,expression2)                 \
     {                                                                   \
         std::cout << #expression1 << " != " << #expression2 << ": " << std::flush; \
-        bool ok = (expression1) == (expression2);               \
-        if(ok) {                                                        \
+        bool helper_test_ok = (expression1) == (expression2);   \
+        if(helper_test_ok) {                                            \
             ++HELPER_TEST_FAILURES;                                    \
             std::cout << "\nERROR: " << #expression1 << ":\n           " << (expression1) \
                       << "\n     : " << #expression2 << ":\n           " << (expression2) << std::endl; \
@@ -290,8 +290,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_EQUALS(expression,expected)                         \
     {                                                                   \
         std::cout << #expression << " == " << #expected << ": " << std::flush; \
-        bool ok = (expression) == (expected);                       \
-        if(ok) {                                                        \
+        bool helper_test_ok = (expression) == (expected);           \
+        if(helper_test_ok) {                                            \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -306,17 +306,17 @@ int test_case_counter = 0;
 #define HELPER_TEST_WITHIN(expression,expected,tolerance)                         \
     {                                                                   \
         std::cout << #expression << " ~ " << #expected << ": " << std::flush; \
-        auto error=abs((expression)-(expected)); \
-        bool ok = (error <= (tolerance));                     \
-        if(ok) {                                                        \
+        auto helper_test_error=abs((expression)-(expected)); \
+        bool helper_test_ok = (helper_test_error <= (tolerance)); \
+        if(helper_test_ok) {                                            \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
             std::cout << "\nERROR: " << #expression << ":\n           " << (expression) \
                       << "\n     : " << #expected << ":\n           " << (expected) \
-                      << "\n     : error: " << (error) \
+                      << "\n     : error: " << (helper_test_error) \
                       << "\n     : tolerance " << (tolerance) << std::endl; \
-            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": ApproximateTag equality `" << #expression << " ~ " << #expected << "' failed; " << #expression << "=" << (expression) << "; " << #expected << "=" << (expected)<< "; error=" << (error) << "; tolerance=" << (tolerance) << std::endl; \
+            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": ApproximateTag equality `" << #expression << " ~ " << #expected << "' failed; " << #expression << "=" << (expression) << "; " << #expected << "=" << (expected)<< "; error=" << (helper_test_error) << "; tolerance=" << (tolerance) << std::endl; \
         }                                                               \
     }                                                                   \
                                                                    \
@@ -326,8 +326,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_LESS(expression,expected)                         \
     {                                                                   \
         std::cout << #expression << " < " << #expected << ": " << std::flush; \
-        bool ok = (expression) < (expected);                       \
-        if(ok) {                                                        \
+        bool helper_test_ok = (expression) < (expected);           \
+        if(helper_test_ok) {                                            \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -341,8 +341,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_UNARY_PREDICATE(predicate,argument)    \
     {                                                                   \
         std::cout << #predicate << "(" << #argument << ") with " << #argument << "=" << (argument) << ": " << std::flush; \
-        bool ok = (predicate((argument)));                  \
-        if(ok) {                                                        \
+        bool helper_test_ok = (predicate((argument)));      \
+        if(helper_test_ok) {                                            \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -356,8 +356,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_BINARY_PREDICATE(predicate,argument1,argument2)    \
     {                                                                   \
         std::cout << #predicate << "(" << (#argument1) << "," << (#argument2) << ") with " << #argument1 << "=" << (argument1) << ", " << #argument2 << "=" << (argument2) << ": " << std::flush; \
-        bool ok = predicate((argument1),(argument2));                  \
-        if(ok) {                                                        \
+        bool helper_test_ok = predicate((argument1),(argument2));      \
+        if(helper_test_ok) {                                            \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -371,8 +371,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_COMPARE(expression,comparison,expected)           \
     {                                                                   \
         std::cout << #expression << ": " << (expression) << std::flush; \
-        bool ok = ((expression) comparison (expected));               \
-        if(ok) {                                                        \
+        bool helper_test_ok = ((expression) comparison (expected));   \
+        if(helper_test_ok) {                                            \
             std::cout << " " << #comparison << " " << (expected) << ": true\n" << std::endl; \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -385,15 +385,15 @@ int test_case_counter = 0;
 /*! \brief Evaluates \a expression, converts to \a Type, and checks if the result compares correctly with \a expected. */
 #define HELPER_TEST_RESULT_COMPARE(Type,expression,comparison,expected) \
     {                                                                   \
-        Type result=(expression);                                       \
-        std::cout << #expression << ": " << result << std::flush; \
-        bool ok = result comparison (expected);               \
-        if(ok) {                                                        \
+        Type helper_test_result=(expression);                           \
+        std::cout << #expression << ": " << helper_test_result << std::flush; \
+        bool helper_test_ok = helper_test_result comparison (expected); \
+        if(helper_test_ok) {                                            \
             std::cout << " " << #comparison << " " << (expected) << "\n" << std::endl; \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
             std::cout << "\nERROR: expected: " << #expression << #comparison << #expected << std::endl; \
-            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": Comparison `" << #expression << #comparison << #expected << "' failed; " << #expression << "=" << result << "; " << #expected << "=" << (expected) << std::endl; \
+            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": Comparison `" << #expression << #comparison << #expected << "' failed; " << #expression << "=" << helper_test_result << "; " << #expected << "=" << (expected) << std::endl; \
         }                                                               \
     }                                                                   \
 
@@ -515,8 +515,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_STATIC_ASSERT(...)                          \
     {                                                                   \
         std::cout << #__VA_ARGS__ << ": " << std::flush;                 \
-        bool result = ((__VA_ARGS__::value));                                   \
-        if(result) {                                                    \
+        bool helper_test_result = ((__VA_ARGS__::value));                       \
+        if(helper_test_result) {                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -531,8 +531,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_CONCEPT(...)                          \
     {                                                                   \
         std::cout << #__VA_ARGS__ << ": " << std::flush;                 \
-        bool result = ((__VA_ARGS__));                                   \
-        if(result) {                                                    \
+        bool helper_test_result = ((__VA_ARGS__));                       \
+        if(helper_test_result) {                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -549,8 +549,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_SAME_TYPE(...)                          \
     {                                                                   \
         std::cout << "Same<" << #__VA_ARGS__ << ">: " << std::flush;                 \
-        bool result = ((Same<__VA_ARGS__>));                                   \
-        if(result) {                                                    \
+        bool helper_test_result = ((Same<__VA_ARGS__>));                       \
+        if(helper_test_result) {                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -566,8 +566,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_EQUIVALENT_TYPE(...)                          \
     {                                                                   \
         std::cout << "IsEquivalent<" << #__VA_ARGS__ << ">: " << std::flush;                 \
-        bool result = ((IsEquivalent<__VA_ARGS__>::value));                                   \
-        if(result) {                                                    \
+        bool helper_test_result = ((IsEquivalent<__VA_ARGS__>::value));                       \
+        if(helper_test_result) {                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
-- 
2.43.0


From 9a342bdf4bb66af2e46ae20782aa3721d910f37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:04:38 +0000
Subject: [PATCH 36/45] fix: IsInvocableReturning was false for results of
 built-in type

---
 include/metaprogramming.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/metaprogramming.hpp b/include/metaprogramming.hpp
index f34db64..83c60dd 100644
--- a/include/metaprogramming.hpp
+++ b/include/metaprogramming.hpp
@@ -123,7 +123,7 @@ template<class F, class A> struct IsInvocable<F,A> {
 };
 
 template<class R, class F, class A> struct IsInvocableReturning<R,F,A> {
-    template<class RR, class FF, class AA, class=decltype(std::declval<RR>()=std::declval<FF>()(std::declval<AA>()))>
+    template<class RR, class FF, class AA, class=std::enable_if_t<std::is_convertible<decltype(std::declval<FF>()(std::declval<AA>())),RR>::value>>
         static std::true_type test(int);
     template<class RR, class FF, class AA>
         static std::false_type test(...);
-- 
2.43.0


From 5082193c8405290ec63ac347b46987fd5dd3acec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:27:06 +0000
Subject: [PATCH 37/45] fix: do not leak the count of a SharedArray whose
 elements cannot be made

---
 include/array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index d9ccd1e..18a0294 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -233,7 +233,8 @@ public:
     size_t* _count; size_t _size; T* _ptr;
 public:
     ~SharedArray() { --*_count; if(*_count==0) { delete _count; delete[] _ptr; } }
-    SharedArray(size_t n) : _count(new size_t(1u)), _size(n), _ptr(new T[n]) { }
+    SharedArray(size_t n) : _count(nullptr), _size(n), _ptr(new T[n]) {
+        try { _count=new size_t(1u); } catch(...) { delete[] _ptr; throw; } }
     SharedArray(size_t n, const T& x) : SharedArray(n) {
         for(size_t i=0; i!=n; ++i) { _ptr[i]=x; } }
     SharedArray(const InitializerList<T>& lst) : SharedArray(lst.size()) {
-- 
2.43.0


From 98e0064ec0114d2d0107d9800973e3a76516900e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:19:36 +0000
Subject: [PATCH 38/45] fix: assigning an array from a part of one of its own
 elements read elements after their destruction

---
 include/array.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/array.hpp b/include/array.hpp
index 18a0294..f3c6a37 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -129,12 +129,13 @@ public:
         a._size=0u; a._ptr=nullptr; }
     //! \brief Copy assignment.
     Array<T>& operator=(const Array<T>& a) {
-        if(this->size()==a.size()) { fill(a.begin()); }
-        else { Array<T> r(a); this->swap(r); }
+        Array<T> r(a);
+        if(this->size()==r.size()) { fill(r.begin()); }
+        else { this->swap(r); }
         return *this; }
     //! \brief Move assignment.
     Array<T>& operator=(Array<T>&& a) {
-        if(this!=&a) { this->_destroy_elements(); uninitialized_delete(_ptr); this->_size=a._size; this->_ptr=a._ptr; a._size=0u; a._ptr=nullptr; } return *this; }
+        Array<T> r(std::move(a)); this->swap(r); return *this; }
 
     //! \brief True if the Array's size is 0.
     bool empty() const { return _size==0u; }
-- 
2.43.0


From 3bf4102ea694d5724adb76fe28620c12a131905c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:19:38 +0000
Subject: [PATCH 39/45] fix: assigning a SharedArray from an owner in one of
 its own elements read it after its release

---
 include/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index f3c6a37..895eddc 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -242,7 +242,7 @@ public:
         auto from=lst.begin(); auto end=lst.end(); auto to=_ptr; while(from!=end) { *to = *from; ++from; ++to; } }
     SharedArray(const SharedArray<T>& ary) : _count(ary._count), _size(ary._size), _ptr(ary._ptr) { ++ *_count; }
     SharedArray<T>& operator=(const SharedArray<T>& ary) {
-        if(this->_ptr!=ary._ptr) { --*_count; if(*_count==0) { delete _count; delete[] _ptr; } { _count=ary._count; _size=ary._size; _ptr=ary._ptr; } ++ *_count; } return *this; }
+        SharedArray<T> r(ary); std::swap(_count,r._count); std::swap(_size,r._size); std::swap(_ptr,r._ptr); return *this; }
     size_t size() const { return _size; }
     T& operator[](size_t i) { return _ptr[i]; }
     const T& operator[](size_t i) const { return _ptr[i]; }
-- 
2.43.0


From 77a0d62e33e030babd464466c33be6070f493003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:19:42 +0000
Subject: [PATCH 40/45] fix: appending a List that lies in one of its own
 elements read it after the element had moved

---
 include/container.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/container.hpp b/include/container.hpp
index b6bfda1..49a9267 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -87,9 +87,8 @@ template<class T> class List : public std::vector<T> {
         explicit List(const std::vector<TT>& l) : std::vector<T>(l.begin(),l.end()) { }
     void append(const T& t) { this->push_back(t); }
     void append(const std::vector<T>& t) {
-        const size_t n=t.size(); for(size_t i=0; i!=n; ++i) { this->push_back(t[i]); } }
-    void concatenate(const std::vector<T>& t) {
-        const size_t n=t.size(); for(size_t i=0; i!=n; ++i) { this->push_back(t[i]); } }
+        const std::vector<T> c(t); for(size_t i=0; i!=c.size(); ++i) { this->push_back(c[i]); } }
+    void concatenate(const std::vector<T>& t) { this->append(t); }
 };
 template<class T> inline List<T> catenate(const List<T>& l1, const List<T>& l2) {
     List<T> r(l1);
-- 
2.43.0


From b91cdb21f129627b83b0e859a92f6cdd7a07c619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:19:44 +0000
Subject: [PATCH 41/45] fix: removing the keys of a set held as a value of the
 map read the set after its entry was removed

---
 include/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/container.hpp b/include/container.hpp
index 49a9267..b7b17fe 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -272,7 +272,7 @@ template<class K, class T> class Map : public std::map<K,T> {
     void adjoin(const std::map<K,T>& m) {
         for(auto i=m.begin(); i!=m.end(); ++i) { this->insert(*i); } }
     void remove_keys(const Set<K>& s) {
-        for(auto iter=s.begin(); iter!=s.end(); ++iter) { this->erase(*iter); } }
+        const Set<K> r(s); for(auto iter=r.begin(); iter!=r.end(); ++iter) { this->erase(*iter); } }
     Set<K> keys() const {
         Set<K> res; for(auto iter=this->begin(); iter!=this->end(); ++iter) {
             res.insert(iter->first); } return res; }
-- 
2.43.0


From 9166f7f5607f1ff12ddd3cd5504738d63e4c62f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:24:15 +0000
Subject: [PATCH 42/45] fix: removing from a Set by a set or list held in one
 of its elements read it after its destruction

---
 include/container.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/container.hpp b/include/container.hpp
index b7b17fe..9d32887 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -190,16 +190,17 @@ template<class T> class Set : public std::set<T> {
         if(iter!=this->end()) { this->erase(iter); }
         return *this; }
     Set<T>& remove(const std::set<T>& s) {
-        auto iter=this->begin();
-        while(iter!=this->end()) { if(s.find(*iter)!=s.end()) { this->erase(iter++); } else { ++iter; } }
+        std::set<T> removed; auto iter=this->begin(); // s may be part of a removed element
+        while(iter!=this->end()) { if(s.find(*iter)!=s.end()) { removed.insert(this->extract(iter++)); } else { ++iter; } }
         return *this; }
     Set<T>& restrict(const std::set<T>& s) {
-        auto iter=this->begin();
-        while(iter!=this->end()) { if(s.find(*iter)==s.end()) { this->erase(iter++); } else { ++iter; } }
+        std::set<T> removed; auto iter=this->begin();
+        while(iter!=this->end()) { if(s.find(*iter)==s.end()) { removed.insert(this->extract(iter++)); } else { ++iter; } }
         return *this; }
     template<class TT> Set<T>& remove(const std::vector<TT>& l) {
+        std::set<T> removed;
         for(auto iter=l.begin(); iter!=l.end(); ++iter) {
-            this->std::set<T>::erase(static_cast<const T&>(*iter)); }
+            removed.insert(this->std::set<T>::extract(static_cast<const T&>(*iter))); }
         return *this; }
 };
 template<class T, Invocable<T> F> inline
@@ -226,12 +227,12 @@ template<class T> inline Set<T> intersection(const std::set<T>& s1, const std::v
 template<class T> inline Set<T> difference(const std::set<T>& s1, const std::set<T>& s2) {
     Set<T> r(s1); remove(r,s2); return r; }
 template<class T> inline std::set<T>& remove(std::set<T>& r, const std::set<T>& s) {
-    auto iter=r.begin();
-    while(iter!=r.end()) { if(contains(s,*iter)) { r.erase(iter++); } else { ++iter; } }
+    std::set<T> removed; auto iter=r.begin();
+    while(iter!=r.end()) { if(contains(s,*iter)) { removed.insert(r.extract(iter++)); } else { ++iter; } }
     return r; }
 template<class T> inline std::set<T>& restrict(std::set<T>& r, const std::set<T>& s) {
-    auto iter=r.begin();
-    while(iter!=r.end()) { if(!contains(s,*iter)) { r.erase(iter++); } else { ++iter; } }
+    std::set<T> removed; auto iter=r.begin();
+    while(iter!=r.end()) { if(!contains(s,*iter)) { removed.insert(r.extract(iter++)); } else { ++iter; } }
     return r; }
 
 template<class T> ostream& operator<<(ostream& os, const std::set<T>& v) {
-- 
2.43.0


From e9bf4b3471d70d6556c2ba7ac506d5ca8e81bc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:31:08 +0000
Subject: [PATCH 43/45] fix: arrays of over-aligned elements were stored at
 misaligned addresses

---
 include/array.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/array.hpp b/include/array.hpp
index 895eddc..e0d43d9 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -53,8 +53,12 @@ struct Uninitialised { };
 template<class T>
 class Array {
 private:
-    static T* uninitialized_new(size_t n) { if(n>static_cast<size_t>(-1)/sizeof(T)) { throw std::bad_alloc(); } return static_cast<T*>(::operator new(n*sizeof(T))); }
-    static void uninitialized_delete(T* p) { ::operator delete(p); }
+    static T* uninitialized_new(size_t n) { if(n>static_cast<size_t>(-1)/sizeof(T)) { throw std::bad_alloc(); }
+        if constexpr (alignof(T)>__STDCPP_DEFAULT_NEW_ALIGNMENT__) { return static_cast<T*>(::operator new(n*sizeof(T),std::align_val_t(alignof(T)))); }
+        else { return static_cast<T*>(::operator new(n*sizeof(T))); } }
+    static void uninitialized_delete(T* p) {
+        if constexpr (alignof(T)>__STDCPP_DEFAULT_NEW_ALIGNMENT__) { ::operator delete(p,std::align_val_t(alignof(T))); }
+        else { ::operator delete(p); } }
 public:
     typedef T ValueType;
     typedef size_t IndexType;
-- 
2.43.0


From f2a8d87bf56342d10930ab59d69ab2adc26a3acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:40 +0000
Subject: [PATCH 44/45] fix: an empty tuple could not be written

---
 include/stlio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlio.hpp b/include/stlio.hpp
index 11a7dce..c90d79f 100644
--- a/include/stlio.hpp
+++ b/include/stlio.hpp
@@ -222,7 +222,7 @@ operator<<(std::ostream &os, const std::pair<S,T>& s)
 template<class... TS> inline
 std::ostream& operator<<(std::ostream& os, std::tuple<TS...> const& tup) {
     typename std::tuple_size<std::tuple<TS...>>::type sz;
-    os << "("; Helper::write_tuple(os,tup,sz); os << ")"; return os;
+    os << "("; if constexpr (sizeof...(TS)!=0u) { Helper::write_tuple(os,tup,sz); } os << ")"; return os;
 }
 
 /*
-- 
2.43.0


From 9b6873bfd75b2eb8f45c90a698f04586ca7ebcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:41 +0000
Subject: [PATCH 45/45] fix: stack traces never showed demangled names, and
 stopped the program when symbols could not be looked up

---
 src/stack_trace.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/stack_trace.cpp b/src/stack_trace.cpp
index 23aa7f2..7733bf3 100644
--- a/src/stack_trace.cpp
+++ b/src/stack_trace.cpp
@@ -30,7 +30,7 @@
 
 #ifdef ENABLE_STACK_TRACE
 
-#include <cassert>
+#include <cstdlib>
 #include <iostream>
 
 #include <execinfo.h>
@@ -45,22 +45,19 @@ void stack_trace() {
     void *callstack[CALLSTACK_SIZE];
     const int nMaxFrames = sizeof(callstack) / sizeof(callstack[0]);
     int nFrames = backtrace(callstack, nMaxFrames);
-    char **symbols = backtrace_symbols(callstack, nFrames);
-    assert (symbols != nullptr);
     for (int i = skip; i < nFrames; i++) {
         Dl_info info;
         if (dladdr(callstack[i], &info)) {
             char* no_output_buffer = nullptr;
             size_t length;
             int status;
-            char* demangled = abi::__cxa_demangle(symbols[i], no_output_buffer, &length, &status);
+            char* demangled = abi::__cxa_demangle(info.dli_sname, no_output_buffer, &length, &status);
             std::cerr << (status == 0 ? demangled : info.dli_sname ? info.dli_sname : "??") << "\n";
             free(demangled);
         } else {
             std::cerr << i << " " << callstack[i] << "\n";
         }
     }
-    free(symbols);
 }
 
 } // namespace Helper
-- 
2.43.0

