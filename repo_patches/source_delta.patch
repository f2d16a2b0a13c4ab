From ddadc6b5cd83e1e2635f1704e864f2f2960cb7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:26 +0000
Subject: [PATCH 01/53] fix: GospersHack enumerates the empty subset only once

---
 include/mutable/util/ADT.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mutable/util/ADT.hpp b/include/mutable/util/ADT.hpp
index 6dc3ed0..8b26e29 100644
--- a/include/mutable/util/ADT.hpp
+++ b/include/mutable/util/ADT.hpp
@@ -858,6 +858,10 @@ struct GospersHack
     /** Advance to the next subset. */
     GospersHack & operator++() {
         const uint64_t s(set_);
+        if (s == 0) { // the empty set is the only subset of size 0
+            set_ = SmallBitset(limit_);
+            return *this;
+        }
 #ifdef __BMI__
         const uint64_t c = _blsi_u64(s); // BMI1: extract lowest set isolated bit -> c is a power of 2
 #else
-- 
2.43.0


From 700a5d799525f3c12f274b2c5ac1421d02aaae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:33 +0000
Subject: [PATCH 02/53] fix: binary logarithm and power-of-two ceiling of
 integers narrower than unsigned

---
 include/mutable/util/fn.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mutable/util/fn.hpp b/include/mutable/util/fn.hpp
index a349555..5d74d77 100644
--- a/include/mutable/util/fn.hpp
+++ b/include/mutable/util/fn.hpp
@@ -141,7 +141,7 @@ ceil_to_pow_2(T n)
     /* Count leading zeros. */
     int lz;
     if constexpr (sizeof(T) <= sizeof(unsigned)) {
-        lz = __builtin_clz(n - 1U);
+        lz = __builtin_clz(n - 1U) - 8 * (sizeof(unsigned) - sizeof(T)); // discount bits beyond the width of `T`
     } else if constexpr (sizeof(T) <= sizeof(unsigned long)) {
         lz = __builtin_clzl(n - 1UL);
     } else if constexpr (sizeof(T) <= sizeof(unsigned long long)) {
@@ -196,7 +196,7 @@ M_EXPORT
 log2_floor(T n)
 {
     if constexpr (sizeof(T) <= sizeof(unsigned)) {
-        return sizeof(T) * 8 - __builtin_clz(n) - 1;
+        return sizeof(unsigned) * 8 - __builtin_clz(n) - 1; // `n` is promoted to `unsigned`
     } else if constexpr (sizeof(T) <= sizeof(unsigned long)) {
         return sizeof(T) * 8 - __builtin_clzl(n) - 1;
     } else if constexpr (sizeof(T) <= sizeof(unsigned long long)) {
@@ -211,7 +211,7 @@ typename std::enable_if_t<std::is_integral_v<T> and std::is_unsigned_v<T> and si
 M_EXPORT
 log2_ceil(T n)
 {
-    return n <= 1 ? 0 : log2_floor(n - T(1)) + T(1);
+    return n <= 1 ? T(0) : T(log2_floor(T(n - T(1))) + T(1));
 }
 
 /** Short version of dynamic_cast that works for pointers and references. */
-- 
2.43.0


From 348730ace73b50f3e9f1d3ea4927c10944ae5713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:21 +0000
Subject: [PATCH 03/53] fix: sorted_vector::insert(value) did not compile and
 ignored the comparator

---
 include/mutable/util/ADT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mutable/util/ADT.hpp b/include/mutable/util/ADT.hpp
index 8b26e29..7cb1647 100644
--- a/include/mutable/util/ADT.hpp
+++ b/include/mutable/util/ADT.hpp
@@ -814,7 +814,7 @@ struct sorted_vector
     }
 
     /** Inserts `value` into this `sorted_vector`.  Returns an `iterator` pointing to the inserted element. */
-    auto insert(T value) { return v_.insert(std::lower_bound(begin(), end(), value), value, comp_); }
+    auto insert(T value) { return v_.insert(std::lower_bound(begin(), end(), value, comp_), std::move(value)); }
 
     /** Inserts elements in the range from `first` (including) to `last` (excluding) into this `sorted_vector. */
     template<typename InsertIt>
-- 
2.43.0


From f6dfdd3c6ba9b770114d1a8cb771fb03ab39c647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:21 +0000
Subject: [PATCH 04/53] fix: doubly_linked_list::erase destroys the erased
 element

---
 include/mutable/util/ADT.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mutable/util/ADT.hpp b/include/mutable/util/ADT.hpp
index 7cb1647..9077185 100644
--- a/include/mutable/util/ADT.hpp
+++ b/include/mutable/util/ADT.hpp
@@ -601,6 +601,7 @@ struct doubly_linked_list
             next->ptrxor_ ^= reinterpret_cast<std::uintptr_t>(pos.node_) ^ reinterpret_cast<std::uintptr_t>(prev);
         else // erased last node
             tail_ = prev;
+        pos.node_->value_.~value_type();
         deallocate_node(pos.node_);
         --size_;
         return iterator(next, pos.prev_);
-- 
2.43.0


From c95f33f37b32215621dd61881f13e8f80a526628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 05/53] fix: iterating a RefCountingHashMap starts at the first
 occupied entry

---
 src/util/container/RefCountingHashMap.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/util/container/RefCountingHashMap.hpp b/src/util/container/RefCountingHashMap.hpp
index e8f1f12..41225cb 100644
--- a/src/util/container/RefCountingHashMap.hpp
+++ b/src/util/container/RefCountingHashMap.hpp
@@ -203,9 +203,17 @@ struct RefCountingHashMap
     }
     size_type watermark_high() const { return watermark_high_; }
 
-    iterator begin() { return iterator(*this, table_); }
+    iterator begin() {
+        iterator it(*this, table_);
+        if (table_->probe_length == 0) ++it; // skip to the first occupied entry
+        return it;
+    }
     iterator end()   { return iterator(*this, table_ + capacity()); }
-    const_iterator begin() const { return const_iterator(*this, table_); }
+    const_iterator begin() const {
+        const_iterator it(*this, table_);
+        if (table_->probe_length == 0) ++it; // skip to the first occupied entry
+        return it;
+    }
     const_iterator end()   const { return const_iterator(*this, table_ + capacity()); }
     const_iterator cbegin() const { return begin(); }
     const_iterator cend()   const { return end(); }
-- 
2.43.0


From 664f002ed4bb4b1a30ee93e98d18e71a2a25b99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 06/53] fix: bucket iterator's postfix increment returned a
 reference to a local

---
 src/util/container/RefCountingHashMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/container/RefCountingHashMap.hpp b/src/util/container/RefCountingHashMap.hpp
index 41225cb..fb369ed 100644
--- a/src/util/container/RefCountingHashMap.hpp
+++ b/src/util/container/RefCountingHashMap.hpp
@@ -125,7 +125,7 @@ struct RefCountingHashMap
             return *this;
         }
 
-        the_bucket_iterator & operator++(int) {
+        the_bucket_iterator operator++(int) {
             the_bucket_iterator tmp = *this;
             operator++();
             return tmp;
-- 
2.43.0


From d51fbd14ad69ec7950d1de787da08a37c7667d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:42 +0000
Subject: [PATCH 07/53] fix: unlock_read could wake a regular writer instead of
 the upgrading reader and deadlock

---
 include/mutable/util/reader_writer_lock.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/mutable/util/reader_writer_lock.hpp b/include/mutable/util/reader_writer_lock.hpp
index 13bf302..a4f41fb 100644
--- a/include/mutable/util/reader_writer_lock.hpp
+++ b/include/mutable/util/reader_writer_lock.hpp
@@ -138,6 +138,7 @@ class reader_writer_mutex
     public:
     void notify_readers() { cv_readers_.notify_all(); }
     void notify_writer() { cv_writers_.notify_one(); }
+    void notify_writers() { cv_writers_.notify_all(); }
 
     /** Acquire a read lock.  This call blocks the calling thread until a read lock was acquired. */
     void lock_read() {
@@ -208,9 +209,10 @@ class reader_writer_mutex
         M_insist(not rw_.reader_wants_upgrade() or rw_.writers_waiting() != 0,
                  "if a reader wants to upgrade, it must be waiting to claim the write lock");
         if (rw_.reader_wants_upgrade() and rw_.readers_active() == 1) {
-            /* There is a single active reader remaining, that wants to upgrade to a writer.  Notify it. */
+            /* There is a single active reader remaining, that wants to upgrade to a writer.  Notify it.  Regular writers
+             * may be waiting on the same condition variable, hence notifying only one waiter could miss the upgrader. */
             lock.unlock();
-            notify_writer();
+            notify_writers();
         } else if (rw_.readers_active() == 0 and rw_.writers_waiting() != 0) {
             /* We were the last reader and there are writers waiting to acquire the lock.  Notify one of them. */
             lock.unlock();
-- 
2.43.0


From 40bf32c8899775a9c58db398e987599dc78f5052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:42 +0000
Subject: [PATCH 08/53] fix: upgrade_lock::upgrade gives up the read lock when
 it fails, as documented

---
 include/mutable/util/reader_writer_lock.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mutable/util/reader_writer_lock.hpp b/include/mutable/util/reader_writer_lock.hpp
index a4f41fb..bac15a7 100644
--- a/include/mutable/util/reader_writer_lock.hpp
+++ b/include/mutable/util/reader_writer_lock.hpp
@@ -396,6 +396,7 @@ struct upgrade_lock : protected read_lock
             owns_lock_ = false;
             return write_lock{rw_mutex_, std::adopt_lock};  // we already own the write lock after upgrade
         }
+        unlock();  // prevent deadlock by giving up read lock after failing to upgrade
         return write_lock{rw_mutex_, std::defer_lock};  // we could not upgrade to a write lock
     }
 };
-- 
2.43.0


From 057bc938a012d93ec1a91425b773bb240deba6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:42 +0000
Subject: [PATCH 09/53] fix: move-assigning a reader_writer_lock leaked the
 target's lock and released the source's twice

---
 include/mutable/util/reader_writer_lock.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/mutable/util/reader_writer_lock.hpp b/include/mutable/util/reader_writer_lock.hpp
index bac15a7..775e05a 100644
--- a/include/mutable/util/reader_writer_lock.hpp
+++ b/include/mutable/util/reader_writer_lock.hpp
@@ -263,7 +263,12 @@ struct reader_writer_lock
         unlock();
     }
 
-    reader_writer_lock & operator=(reader_writer_lock &&other) = default;
+    reader_writer_lock & operator=(reader_writer_lock &&other) {
+        using std::swap;
+        swap(rw_mutex_, other.rw_mutex_);
+        swap(state_, other.state_);
+        return *this;
+    }
 
     bool owns_read_lock() const { return state_ == LOCK_READ; }
     bool owns_write_lock() const { return state_ == LOCK_WRITE; }
-- 
2.43.0


From d5cd662f60633eada1d7b51fbdda7eb34de7925c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 10/53] fix: cloning a tuple turned NULL into a value

---
 src/IR/Tuple.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/IR/Tuple.cpp b/src/IR/Tuple.cpp
index 1ccbaaa..1758c01 100644
--- a/src/IR/Tuple.cpp
+++ b/src/IR/Tuple.cpp
@@ -125,6 +125,7 @@ Tuple Tuple::clone(const Schema &S) const
 {
     Tuple cpy(S);
     for (std::size_t i = 0; i != S.num_entries(); ++i) {
+        if (is_null(i)) continue; // all values of a fresh tuple are NULL
         if (S[i].type->is_character_sequence()) {
             strcpy(reinterpret_cast<char*>(cpy[i].as_p()), reinterpret_cast<char*>((*this)[i].as_p()));
             cpy.not_null(i);
-- 
2.43.0


From d59018e05c014913f0a9e1b63b930138dbcb4586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:14 +0000
Subject: [PATCH 11/53] fix: a rejected attribute no longer leaves its name
 registered in the table

---
 include/mutable/catalog/Schema.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/mutable/catalog/Schema.hpp b/include/mutable/catalog/Schema.hpp
index 14eeb5a..01863ee 100644
--- a/include/mutable/catalog/Schema.hpp
+++ b/include/mutable/catalog/Schema.hpp
@@ -722,10 +722,11 @@ struct M_EXPORT ConcreteTable : Table
     /** Adds a new attribute with the given `name` and `type` to the table.  Throws `std::invalid_argument` if the
      * `name` is already in use. */
     void push_back(ThreadSafePooledString name, const PrimitiveType *type) override {
-        auto res = name_to_attr_.emplace(name, attrs_.size());
-        if (not res.second)
+        if (name_to_attr_.contains(name))
             throw std::invalid_argument("attribute name already in use");
-        attrs_.emplace_back(Attribute(attrs_.size(), *this, type, std::move(name)));
+        Attribute attr(attrs_.size(), *this, type, name); // may throw; register the name only thereafter
+        name_to_attr_.emplace(std::move(name), attrs_.size());
+        attrs_.emplace_back(std::move(attr));
     }
 
     /** Returns a `Schema` for this `Table` given the alias `alias`. */
-- 
2.43.0


From 3016b7d1bd2773857ee971e0bd5b8d254c111f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:14 +0000
Subject: [PATCH 12/53] fix: CREATE TABLE of an existing table no longer
 dereferences a null table

---
 src/catalog/DatabaseCommand.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/catalog/DatabaseCommand.cpp b/src/catalog/DatabaseCommand.cpp
index 5128ca3..14c2f78 100644
--- a/src/catalog/DatabaseCommand.cpp
+++ b/src/catalog/DatabaseCommand.cpp
@@ -268,6 +268,7 @@ void CreateTable::execute(Diagnostic &diag)
         table = &DB.add(std::move(table_));
     } catch (std::invalid_argument) {
         diag.err() << "Table " << table_name << " already exists in database " << DB.name << ".\n";
+        return;
     }
 
     table->layout(C.data_layout());
-- 
2.43.0


From 644a052b37ef2d6d91cba259c64e7fcff26e5c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:04 +0000
Subject: [PATCH 13/53] fix: do not append EOF to a string literal that ends in
 a backslash

---
 src/lex/Lexer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lex/Lexer.cpp b/src/lex/Lexer.cpp
index b9ea3fb..dbec9a6 100644
--- a/src/lex/Lexer.cpp
+++ b/src/lex/Lexer.cpp
@@ -192,6 +192,7 @@ Token Lexer::read_string_literal()
     while (EOF != c_ and '"' != c_) {
         if (c_ == '\\') { // escape character
             push();
+            if (EOF == c_) break; // unterminated
             switch (c_) {
                 default:
                     /* invalid escape sequence */
-- 
2.43.0


From b70f6bea04cce10a08cca91f202c0df7af69a723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:04 +0000
Subject: [PATCH 14/53] fix: reject hexadecimal floating-point constants
 without digits before the exponent

---
 src/lex/Lexer.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lex/Lexer.cpp b/src/lex/Lexer.cpp
index dbec9a6..f06edd8 100644
--- a/src/lex/Lexer.cpp
+++ b/src/lex/Lexer.cpp
@@ -126,7 +126,8 @@ Token Lexer::read_keyword_or_identifier()
 Token Lexer::read_number()
 {
     bool is_float = false;
-    bool empty = true;
+    bool empty = true; // no digits in the significand
+    bool empty_exponent = false;
     enum { Oct, Dec, Hex } is, has;
 
     /*-- Prefix ----------------------*/
@@ -167,11 +168,11 @@ Token Lexer::read_number()
         if (is  == Oct) is  = Dec; // there are no octal floating point constants
         if (has == Oct) has = Dec;
         if ('-' == c_ || '+' == c_) push();
-        empty = true;
-        while (is_dec(c_)) { empty = false; push(); }
+        empty_exponent = true;
+        while (is_dec(c_)) { empty_exponent = false; push(); }
     }
 
-    if (empty or is != has) {
+    if (empty or empty_exponent or is != has) {
         const auto str = internalize();
         diag.e(start_) << "invalid number '" << str << "'\n";
         return Token(start_, std::move(str), TK_ERROR);
-- 
2.43.0


From fc726700a22646a1461be336417d58acd40c0dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:04 +0000
Subject: [PATCH 15/53] fix: require the separators of date and datetime
 constants

---
 src/lex/Lexer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lex/Lexer.cpp b/src/lex/Lexer.cpp
index f06edd8..f94b134 100644
--- a/src/lex/Lexer.cpp
+++ b/src/lex/Lexer.cpp
@@ -237,17 +237,17 @@ Token Lexer::read_date_or_datetime()
 #define DIGITS(num) for (auto i = 0; i < num; ++i) if (is_dec(c_)) push(); else invalid = true;
     accept('-'); // for years BC
     DIGITS(4); // year
-    invalid &= accept('-');
+    invalid |= not accept('-');
     DIGITS(2); // month
-    invalid &= accept('-');
+    invalid |= not accept('-');
     DIGITS(2); // day
 
     if (accept(' ')) {
         datetime = true;
         DIGITS(2) // hours
-        invalid &= accept(':');
+        invalid |= not accept(':');
         DIGITS(2); // minutes
-        invalid &= accept(':');
+        invalid |= not accept(':');
         DIGITS(2); // seconds
     }
 #undef DIGITS
-- 
2.43.0


From 73a94d5702bd58c2666e5fb98728f3d88058e3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:20 +0000
Subject: [PATCH 16/53] fix: diagnose NUL characters in string literals and
 instructions

---
 src/lex/Lexer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lex/Lexer.cpp b/src/lex/Lexer.cpp
index f94b134..667a2d9 100644
--- a/src/lex/Lexer.cpp
+++ b/src/lex/Lexer.cpp
@@ -207,6 +207,7 @@ Token Lexer::read_string_literal()
                     push();
             }
         } else {
+            if ('\0' == c_) invalid = true; // the text of a token cannot hold NUL
             push();
         }
     }
@@ -221,7 +222,7 @@ Token Lexer::read_string_literal()
     const auto str = internalize();
 
     if (invalid) {
-        diag.e(start_) << "invalid escape sequence in string literal '" << str << "'\n";
+        diag.e(start_) << "invalid escape sequence or character in string literal '" << str << "'\n";
         return Token(start_, std::move(str), TK_ERROR);
     }
 
@@ -272,7 +273,7 @@ Token Lexer::read_date_or_datetime()
 Token Lexer::read_instruction()
 {
     push(); // initial '\'
-    while (';' != c_ and EOF != c_)
+    while (';' != c_ and EOF != c_ and '\0' != c_) // the text of a token cannot hold NUL
         push();
     return Token(start_, internalize(), TK_INSTRUCTION);
 }
-- 
2.43.0


From a3de12b619ec11a2ac4674d0c97fc9aa6be9d920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:19 +0000
Subject: [PATCH 17/53] fix: the interpreter's operations on NULL yield NULL
 without reading the operand

---
 src/backend/StackMachine.cpp | 44 ++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/backend/StackMachine.cpp b/src/backend/StackMachine.cpp
index c6939db..280bd55 100644
--- a/src/backend/StackMachine.cpp
+++ b/src/backend/StackMachine.cpp
@@ -1210,21 +1210,28 @@ NEXT;
  * Arithmetical operations
  *====================================================================================================================*/
 
+/* An operation on `NULL` yields `NULL`.  The `Value` of a `NULL` is unspecified and must not be accessed. */
 #define UNARY(OP, TYPE) { \
     M_insist(top_ >= 1); \
-    TYPE val = TOP.as<TYPE>(); \
-    TOP = OP(val); \
+    if (not TOP_IS_NULL) { \
+        TYPE val = TOP.as<TYPE>(); \
+        TOP = OP(val); \
+    } \
 } \
 NEXT;
 
 #define BINARY(OP, TYPE) { \
     M_insist(top_ >= 2); \
-    TYPE rhs = TOP.as<TYPE>(); \
-    bool is_rhs_null = TOP_IS_NULL; \
+    const Value rhs_value = TOP; \
+    const bool is_rhs_null = TOP_IS_NULL; \
     POP(); \
-    TYPE lhs = TOP.as<TYPE>(); \
-    TOP = OP(lhs, rhs); \
-    TOP_IS_NULL = TOP_IS_NULL or is_rhs_null; \
+    if (TOP_IS_NULL or is_rhs_null) { \
+        TOP_IS_NULL = true; \
+    } else { \
+        TYPE rhs = rhs_value.as<TYPE>(); \
+        TYPE lhs = TOP.as<TYPE>(); \
+        TOP = OP(lhs, rhs); \
+    } \
 } \
 NEXT;
 
@@ -1360,11 +1367,11 @@ Not_b: UNARY(not, bool);
 /* Logical and with three-valued logic (https://en.wikipedia.org/wiki/Three-valued_logic#Kleene_and_Priest_logics). */
 And_b: {
     M_insist(top_ >= 2);
-    bool rhs = TOP.as<bool>();
     bool is_rhs_null = TOP_IS_NULL;
+    bool rhs = not is_rhs_null and TOP.as<bool>();
     POP();
-    bool lhs = TOP.as<bool>();
     bool is_lhs_null = TOP_IS_NULL;
+    bool lhs = not is_lhs_null and TOP.as<bool>();
     TOP = lhs and rhs;
     TOP_IS_NULL = (lhs or is_lhs_null) and (rhs or is_rhs_null) and (is_lhs_null or is_rhs_null);
 }
@@ -1373,11 +1380,11 @@ NEXT;
 /* Logical or with three-valued logic (https://en.wikipedia.org/wiki/Three-valued_logic#Kleene_and_Priest_logics). */
 Or_b: {
     M_insist(top_ >= 2);
-    bool rhs = TOP.as<bool>();
     bool is_rhs_null = TOP_IS_NULL;
+    bool rhs = not is_rhs_null and TOP.as<bool>();
     POP();
-    bool lhs = TOP.as<bool>();
     bool is_lhs_null = TOP_IS_NULL;
+    bool lhs = not is_lhs_null and TOP.as<bool>();
     TOP = lhs or rhs;
     TOP_IS_NULL = (not lhs or is_lhs_null) and (not rhs or is_rhs_null) and (is_lhs_null or is_rhs_null);
 }
@@ -1436,13 +1443,16 @@ GE_s: BINARY(0 <= strcmp, char*);
 
 #define CMP(TYPE) { \
     M_insist(top_ >= 2); \
-    TYPE rhs = TOP.as<TYPE>(); \
-    bool is_rhs_null = TOP_IS_NULL; \
+    const Value rhs_value = TOP; \
+    const bool is_rhs_null = TOP_IS_NULL; \
     POP(); \
-    TYPE lhs = TOP.as<TYPE>(); \
-    bool is_lhs_null = TOP_IS_NULL; \
-    TOP = int64_t(lhs >= rhs) - int64_t(lhs <= rhs); \
-    TOP_IS_NULL = is_lhs_null or is_rhs_null; \
+    if (TOP_IS_NULL or is_rhs_null) { \
+        TOP_IS_NULL = true; \
+    } else { \
+        TYPE rhs = rhs_value.as<TYPE>(); \
+        TYPE lhs = TOP.as<TYPE>(); \
+        TOP = int64_t(lhs >= rhs) - int64_t(lhs <= rhs); \
+    } \
 } \
 NEXT;
 
-- 
2.43.0


From 34fe1499e779c41d074fd71aa38d0b84e72d66c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:51 +0000
Subject: [PATCH 18/53] fix: reject the remainder of floating-point numbers,
 which no backend can compute

---
 src/parse/Sema.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index ff462a5..c6a2be4 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -786,6 +786,13 @@ void Sema::operator()(BinaryExpr &e)
             M_insist(ty_lhs);
             M_insist(ty_rhs);
 
+            /* The remainder is not defined for floating-point numbers. */
+            if (e.op().type == TK_PERCENT and (ty_lhs->is_floating_point() or ty_rhs->is_floating_point())) {
+                diag.e(e.op().pos) << "Invalid expression " << e << ", operands must not be of floating-point type.\n";
+                e.type_ = Type::Get_Error();
+                return;
+            }
+
             /* Compute type of the binary expression. */
             e.type_ = e.common_operand_type = arithmetic_join(ty_lhs, ty_rhs);
             break;
-- 
2.43.0


From 8171d5d5c1a8e20ba369c64f536d6f1f378f2f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:51 +0000
Subject: [PATCH 19/53] fix: bring decimal operands of the remainder to the
 same scale

---
 src/backend/StackMachine.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/backend/StackMachine.cpp b/src/backend/StackMachine.cpp
index 280bd55..bdf34ea 100644
--- a/src/backend/StackMachine.cpp
+++ b/src/backend/StackMachine.cpp
@@ -436,7 +436,11 @@ void StackMachineBuilder::operator()(Const<ast::BinaryExpr> &e)
 
         case TK_PERCENT:
             (*this)(*e.lhs);
+            scale(ty_lhs, ty);
+
             (*this)(*e.rhs);
+            scale(ty_rhs, ty);
+
             stack_machine_.emit_Mod_i();
             break;
 
-- 
2.43.0


From a0b471837e40f253fe3cf09cc9e7a75f03bc8bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:20 +0000
Subject: [PATCH 20/53] fix: a DECIMAL occupies at least a byte

---
 include/mutable/catalog/Type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mutable/catalog/Type.hpp b/include/mutable/catalog/Type.hpp
index 931dad6..b404b97 100644
--- a/include/mutable/catalog/Type.hpp
+++ b/include/mutable/catalog/Type.hpp
@@ -434,7 +434,7 @@ private:
         switch (kind) {
             case N_Int: return 8 * precision;
             case N_Float: return precision;
-            case N_Decimal: return ceil_to_pow_2(uint32_t(std::ceil(DECIMAL_TO_BINARY_DIGITS * precision)));
+            case N_Decimal: return std::max<uint64_t>(8, ceil_to_pow_2(uint32_t(std::ceil(DECIMAL_TO_BINARY_DIGITS * precision))));
         }
         M_unreachable("illegal kind");
     }
-- 
2.43.0


From 224a0ced3509e944ad22f3053b3d38ff6a28703d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:20 +0000
Subject: [PATCH 21/53] fix: PAX blocks of a single row have no strides

---
 src/storage/DataLayoutFactory.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/storage/DataLayoutFactory.cpp b/src/storage/DataLayoutFactory.cpp
index 0454bf5..d9050d0 100644
--- a/src/storage/DataLayoutFactory.cpp
+++ b/src/storage/DataLayoutFactory.cpp
@@ -212,14 +212,15 @@ DataLayout PAXLayoutFactory::make(std::vector<const Type*> types, std::size_t nu
     /*----- Construct DataLayout. -----*/
     DataLayout layout(num_tuples);
     auto &pax_block = layout.add_inode(num_rows_per_block, num_blocks_per_row * block_size_in_bits);
+    const bool has_stride = num_rows_per_block != 1; // no stride without repetition
     for (std::size_t idx = 0; idx != types.size(); ++idx)
-        pax_block.add_leaf(types[idx], idx, offsets[idx], types[idx]->size());
+        pax_block.add_leaf(types[idx], idx, offsets[idx], has_stride ? types[idx]->size() : 0);
     if (not options::remove_null_bitmap) {
         pax_block.add_leaf( // add NULL bitmap
             /* type=           */ Type::Get_Bitmap(Type::TY_Vector, types.size()),
             /* idx=            */ types.size(),
             /* offset_in_bits= */ offsets[types.size()],
-            /* stride_in_bits= */ null_bitmap_size_in_bits
+            /* stride_in_bits= */ has_stride ? null_bitmap_size_in_bits : 0
         );
     }
 
-- 
2.43.0


From d389badf5d9107127061255ad9a1a4a486d14793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:11 +0000
Subject: [PATCH 22/53] fix: group by and hash join compare strings by content,
 not by address

---
 src/backend/Interpreter.cpp | 109 +++++++++++++++++++++++-------------
 1 file changed, 70 insertions(+), 39 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index e6f0c5a..a049735 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -642,6 +642,55 @@ struct NestedLoopsJoinData : JoinData
     ~NestedLoopsJoinData() { delete[] buffers; }
 };
 
+/** Computes the hash of the first attributes of a `Tuple`, interpreted as of the given types.  Attributes that are equal
+ * in terms of SQL have equal hashes. */
+struct KeyHash
+{
+    std::vector<const Type*> types;
+
+    uint64_t operator()(const Tuple &tup) const {
+        std::hash<Value> h;
+        uint64_t hash = 0xcbf29ce484222325;
+        for (std::size_t i = 0; i != types.size(); ++i) {
+            if (tup.is_null(i))
+                hash ^= 0;
+            else if (types[i]->is_character_sequence())
+                hash ^= FNV1a(tup[i].as<const char*>());
+            else if (types[i]->is_float())
+                hash ^= h(tup[i].as_f() + 0.f); // maps -0 to +0
+            else if (types[i]->is_double())
+                hash ^= h(tup[i].as_d() + 0.); // maps -0 to +0
+            else
+                hash ^= h(tup[i]);
+            hash *= 1099511628211;
+        }
+        return hash;
+    }
+};
+
+/** Compares the first attributes of two `Tuple`s, interpreted as of the given types.  `NULL` is equal to `NULL`. */
+struct KeyEqual
+{
+    std::vector<const Type*> types;
+
+    bool operator()(const Tuple &first, const Tuple &second) const {
+        for (std::size_t i = 0; i != types.size(); ++i) {
+            if (first.is_null(i) != second.is_null(i)) return false;
+            if (first.is_null(i)) continue;
+            if (types[i]->is_character_sequence()) {
+                if (not streq(first.get(i).as<const char*>(), second.get(i).as<const char*>())) return false;
+            } else if (types[i]->is_float()) {
+                if (first.get(i).as_f() != second.get(i).as_f()) return false;
+            } else if (types[i]->is_double()) {
+                if (first.get(i).as_d() != second.get(i).as_d()) return false;
+            } else {
+                if (first.get(i) != second.get(i)) return false;
+            }
+        }
+        return true;
+    }
+};
+
 struct SimpleHashJoinData : JoinData
 {
     Catalog &C = Catalog::Get();
@@ -649,14 +698,14 @@ struct SimpleHashJoinData : JoinData
     std::vector<std::pair<const ast::Expr*, const ast::Expr*>> exprs;
     StackMachine build_key; ///< extracts the key of the build input
     StackMachine probe_key; ///< extracts the key of the probe input
-    RefCountingHashMap<Tuple, Tuple> ht; ///< hash table on build input
+    RefCountingHashMap<Tuple, Tuple, KeyHash, KeyEqual> ht; ///< hash table on build input
 
     Schema key_schema; ///< the `Schema` of the `key`
     Tuple key; ///< `Tuple` to hold the key
 
     SimpleHashJoinData(const JoinOperator &op)
         : JoinData(op)
-        , ht(1024)
+        , ht(1024, KeyHash{key_types(op)}, KeyEqual{key_types(op)})
     {
         auto &schema_lhs = op.child(0)->schema();
 #ifndef NDEBUG
@@ -704,6 +753,14 @@ struct SimpleHashJoinData : JoinData
         key = Tuple(key_schema);
     }
 
+    /** Returns the types of the join key. */
+    static std::vector<const Type*> key_types(const JoinOperator &op) {
+        std::vector<const Type*> types;
+        for (auto &clause : op.predicate())
+            types.push_back(as<const ast::BinaryExpr>(&clause[0].expr())->lhs->type());
+        return types;
+    }
+
     void load_build_key(const Schema &pipeline_schema) {
         for (std::size_t i = 0; i != exprs.size(); ++i) {
             const ast::Expr *expr = exprs[i].first;
@@ -803,49 +860,23 @@ struct AggregationData : OperatorData
 
 struct HashBasedGroupingData : GroupingData
 {
-    /** Callable to compute the hash of the keys of a tuple. */
-    struct hasher
-    {
-        std::size_t key_size;
-
-        hasher(std::size_t key_size) : key_size(key_size) { }
-
-        uint64_t operator()(const Tuple &tup) const {
-            std::hash<Value> h;
-            uint64_t hash = 0xcbf29ce484222325;
-            for (std::size_t i = 0; i != key_size; ++i) {
-                hash ^= tup.is_null(i) ? 0 : h(tup[i]);
-                hash *= 1099511628211;
-            }
-            return hash;
-        }
-    };
-
-    /** Callable to compare two tuples by their keys. */
-    struct equals
-    {
-        std::size_t key_size;
-
-        equals(std::size_t key_size) : key_size(key_size) { }
-
-        uint64_t operator()(const Tuple &first, const Tuple &second) const {
-            for (std::size_t i = 0; i != key_size; ++i) {
-                if (first.is_null(i) != second.is_null(i)) return false;
-                if (not first.is_null(i))
-                    if (first.get(i) != second.get(i)) return false;
-            }
-            return true;
-        }
-    };
-
     /** A map of `Tuple`s, where the key part is used for hashing and comparison.  The mapped to value holds the count
      * of tuples that belong to this group. */
-    std::unordered_map<Tuple, unsigned, hasher, equals> groups;
+    std::unordered_map<Tuple, unsigned, KeyHash, KeyEqual> groups;
 
     HashBasedGroupingData(const GroupingOperator &op)
         : GroupingData(op)
-        , groups(1024, hasher(op.group_by().size()), equals(op.group_by().size()))
+        , groups(1024, KeyHash{key_types(op)}, KeyEqual{key_types(op)})
     { }
+
+    private:
+    /** Returns the types of the grouping key. */
+    static std::vector<const Type*> key_types(const GroupingOperator &op) {
+        std::vector<const Type*> types;
+        for (auto &[grp, alias] : op.group_by())
+            types.push_back(grp.get().type());
+        return types;
+    }
 };
 
 struct SortingData : OperatorData
-- 
2.43.0


From a09e8bf5021e9525692bd25620bca2914eb3936b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:11 +0000
Subject: [PATCH 23/53] fix: rows whose join key is NULL do not join

---
 src/backend/Interpreter.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index a049735..8ea8f31 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -761,6 +761,13 @@ struct SimpleHashJoinData : JoinData
         return types;
     }
 
+    /** Returns `true` iff any part of the current `key` is `NULL`. */
+    bool key_has_null() const {
+        for (std::size_t i = 0; i != key_schema.num_entries(); ++i)
+            if (key.is_null(i)) return true;
+        return false;
+    }
+
     void load_build_key(const Schema &pipeline_schema) {
         for (std::size_t i = 0; i != exprs.size(); ++i) {
             const ast::Expr *expr = exprs[i].first;
@@ -1036,6 +1043,7 @@ void Pipeline::operator()(const JoinOperator &op)
             for (auto &t : block_) {
                 args[1] = &t;
                 data->probe_key(args);
+                if (data->key_has_null()) continue; // NULL never satisfies an equi-predicate
                 pipeline.block_.fill();
                 data->ht.for_all(*args[0], [&](std::pair<const Tuple, Tuple> &v) {
                     if (i == pipeline.block_.capacity()) {
@@ -1069,6 +1077,7 @@ void Pipeline::operator()(const JoinOperator &op)
             for (auto &t : block_) {
                 args[1] = &t;
                 data->build_key(args);
+                if (data->key_has_null()) continue; // NULL never satisfies an equi-predicate
                 data->ht.insert_with_duplicates(args[0]->clone(data->key_schema), t.clone(tuple_schema));
             }
         }
-- 
2.43.0


From bfdc65f66a2fbd94125804b166feb1f7834d0e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:11 +0000
Subject: [PATCH 24/53] fix: equi-joins the simple hash join cannot evaluate
 use the nested-loops join

---
 src/backend/Interpreter.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 8ea8f31..fd4bef8 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -1485,9 +1485,22 @@ void Interpreter::operator()(const DisjunctiveFilterOperator &op)
     op.child(0)->accept(*this);
 }
 
+/** Returns `true` iff the simple hash join can evaluate the join predicate: it compares the keys without converting
+ * them to a common type first. */
+static bool is_simple_hash_joinable(const JoinOperator &op)
+{
+    if (not op.predicate().is_equi()) return false;
+    for (auto &clause : op.predicate()) {
+        auto &literal = clause[0];
+        auto binary = as<const ast::BinaryExpr>(&literal.expr());
+        if (literal.negative() or binary->lhs->type() != binary->rhs->type()) return false;
+    }
+    return true;
+}
+
 void Interpreter::operator()(const JoinOperator &op)
 {
-    if (op.predicate().is_equi()) {
+    if (is_simple_hash_joinable(op)) {
         /* Perform simple hash join. */
         auto data = new SimpleHashJoinData(op);
         op.data(data);
-- 
2.43.0


From 183bb8098fe4904086eaa14c37816081a02a9551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:11 +0000
Subject: [PATCH 25/53] fix: ORDER BY aborted on NULL

---
 src/backend/Interpreter.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index fd4bef8..196160d 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -1647,6 +1647,22 @@ void Interpreter::operator()(const SortingOperator &op)
 
     StackMachine comparator(data->pipeline.schema());
     for (auto o : orderings) {
+        /* Compare whether LHS and RHS are NULL.  NULL is greater than any other value. */
+        comparator.emit(o.first.get(), 1); // LHS
+        comparator.emit_Is_Null();
+        comparator.emit(o.first.get(), 2); // RHS
+        comparator.emit_Is_Null();
+        comparator.emit_Cmp_b();
+        if (not o.second)
+            comparator.emit_Minus_i(); // sort descending
+        comparator.emit_St_Tup_i(0, 0);
+        comparator.emit_Stop_NZ();
+
+        /* If LHS is NULL, then so is RHS, and they are equal. */
+        comparator.emit(o.first.get(), 1); // LHS
+        comparator.emit_Is_Null();
+        comparator.add_and_emit_load(int64_t(0));
+
         comparator.emit(o.first.get(), 1); // LHS
         comparator.emit(o.first.get(), 2); // RHS
 
@@ -1675,6 +1691,7 @@ void Interpreter::operator()(const SortingOperator &op)
             [](auto&&) { M_insist("invalid type"); }
         }, *ty);
 
+        comparator.emit_Sel();
         if (not o.second)
             comparator.emit_Minus_i(); // sort descending
         comparator.emit_St_Tup_i(0, 0);
-- 
2.43.0


From acdd24a9d9c925ed7d40685d6cf5a205d18b8f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:54 +0000
Subject: [PATCH 26/53] fix: LIMIT 0 was taken for no limit

---
 include/mutable/IR/QueryGraph.hpp | 2 +-
 src/IR/Optimizer.cpp              | 2 +-
 src/IR/QueryGraph.cpp             | 3 ++-
 src/IR/QueryGraph2SQL.cpp         | 2 +-
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/mutable/IR/QueryGraph.hpp b/include/mutable/IR/QueryGraph.hpp
index fb3df20..5937334 100644
--- a/include/mutable/IR/QueryGraph.hpp
+++ b/include/mutable/IR/QueryGraph.hpp
@@ -187,7 +187,7 @@ struct M_EXPORT QueryGraph
     std::vector<std::reference_wrapper<const ast::FnApplicationExpr>> aggregates_; ///< the aggregates to compute
     std::vector<projection_type> projections_; ///< the data to compute
     std::vector<order_type> order_by_; ///< the order
-    struct { uint64_t limit = 0, offset = 0; } limit_; ///< limit: limit and offset
+    struct { uint64_t limit = 0, offset = 0; bool present = false; } limit_; ///< limit: limit and offset, if present
 
     mutable std::unique_ptr<AdjacencyMatrix> adjacency_matrix_;
 
diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index 406e65b..bbe755e 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -446,7 +446,7 @@ std::unique_ptr<Producer> Optimizer::optimize_plan(const QueryGraph &G, std::uni
     }
 
     /* Limit. */
-    if (G.limit().limit or G.limit().offset) {
+    if (G.limit().present) {
         /* Compute `DataModel` after limit. */
         auto new_model = CE.estimate_limit(G, *entry.model, G.limit().limit, G.limit().offset);
         entry.model = std::move(new_model);
diff --git a/src/IR/QueryGraph.cpp b/src/IR/QueryGraph.cpp
index 0d67996..91d06d8 100644
--- a/src/IR/QueryGraph.cpp
+++ b/src/IR/QueryGraph.cpp
@@ -1876,6 +1876,7 @@ void m::GraphBuilder::operator()(const ast::SelectStmt &stmt) {
     /* Add limit. */
     if (stmt.limit) {
         auto LIMIT = as<ast::LimitClause>(stmt.limit.get());
+        graph_->limit_.present = true;
         errno = 0;
         graph_->limit_.limit = strtoull(*(LIMIT->limit.text), nullptr, 0);
         M_insist(errno == 0);
@@ -1976,7 +1977,7 @@ void QueryGraph::dot_recursive(std::ostream &out) const
         << "<TABLE BORDER=\"0\" CELLPADDING=\"0\" CELLSPACING=\"0\">\n";
 
     /* Limit */
-    if (limit_.limit != 0 or limit_.offset != 0) {
+    if (limit_.present) {
         out << "             <TR><TD ALIGN=\"LEFT\">\n"
             << "               <B>λ</B><FONT POINT-SIZE=\"9\">"
             << limit_.limit << ", " << limit_.offset
diff --git a/src/IR/QueryGraph2SQL.cpp b/src/IR/QueryGraph2SQL.cpp
index 7e084b8..91738bf 100644
--- a/src/IR/QueryGraph2SQL.cpp
+++ b/src/IR/QueryGraph2SQL.cpp
@@ -85,7 +85,7 @@ void QueryGraph2SQL::translate(const QueryGraph &graph)
         }
     }
 
-    if (auto limit = graph_->limit().limit, offset = graph_->limit().offset; limit != 0 or offset != 0 ) {
+    if (auto [limit, offset, present] = graph_->limit(); present) {
         out_ << " LIMIT " << limit;
         if (offset != 0)
             out_ << " OFFSET " << offset;
-- 
2.43.0


From 19dca13c3bf5bc00169573516a1df37d4b7a627a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:54 +0000
Subject: [PATCH 27/53] fix: AVG counted NULLs

---
 src/backend/Interpreter.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 196160d..ccdcf6f 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -835,6 +835,7 @@ struct AggregationData : OperatorData
 {
     Pipeline pipeline;
     Tuple aggregates;
+    std::vector<std::size_t> num_averaged; ///< for each aggregate, the count of values that were averaged
     std::vector<StackMachine> compute_aggregate_arguments; ///< StackMachines to compute the argumetns of aggregations
     std::vector<Tuple> args; ///< tuple used to hold the computed arguments
 
@@ -844,9 +845,8 @@ struct AggregationData : OperatorData
         std::vector<const Type*> types;
         for (auto &e : op.schema())
             types.push_back(e.type);
-        types.push_back(Type::Get_Integer(Type::TY_Scalar, 8)); // add nth_tuple counter
         aggregates = Tuple(std::move(types));
-        aggregates.set(op.schema().num_entries(), 0L); // initialize running count
+        num_averaged.resize(op.aggregates().size());
 
         for (auto agg : op.aggregates()) {
             auto &fe = as<const ast::FnApplicationExpr>(agg.get());
@@ -867,9 +867,9 @@ struct AggregationData : OperatorData
 
 struct HashBasedGroupingData : GroupingData
 {
-    /** A map of `Tuple`s, where the key part is used for hashing and comparison.  The mapped to value holds the count
-     * of tuples that belong to this group. */
-    std::unordered_map<Tuple, unsigned, KeyHash, KeyEqual> groups;
+    /** A map of `Tuple`s, where the key part is used for hashing and comparison.  The mapped to value holds, for
+     * each aggregate, the count of values that were averaged in this group. */
+    std::unordered_map<Tuple, std::vector<std::size_t>, KeyHash, KeyEqual> groups;
 
     HashBasedGroupingData(const GroupingOperator &op)
         : GroupingData(op)
@@ -1222,7 +1222,6 @@ void Pipeline::operator()(const GroupingOperator &op)
         const std::size_t key_size = op.group_by().size();
 
         Tuple &group = const_cast<Tuple&>(entry.first);
-        const unsigned nth_tuple = ++entry.second;
 
         /* Add this tuple to its group by computing the aggregates. */
         for (std::size_t i = 0, end = op.aggregates().size(); i != end; ++i) {
@@ -1280,7 +1279,7 @@ void Pipeline::operator()(const GroupingOperator &op)
                     if (aggregate_arguments.is_null(0)) continue; // skip NULL
                     /* Compute AVG as iterative mean as described in Knuth, The Art of Computer Programming Vol 2,
                      * section 4.2.2. */
-                    val.as_d() += (aggregate_arguments[0].as_d() - val.as_d()) / nth_tuple;
+                    val.as_d() += (aggregate_arguments[0].as_d() - val.as_d()) / ++entry.second[i];
                     break;
                 }
 
@@ -1335,7 +1334,7 @@ void Pipeline::operator()(const GroupingOperator &op)
         if (it == groups.end()) {
             /* Initialize the group's aggregate to NULL.  This will be overwritten by the neutral element w.r.t.
              * the aggregation function. */
-            it = groups.emplace_hint(it, std::move(key), 0);
+            it = groups.emplace_hint(it, std::move(key), std::vector<std::size_t>(op.aggregates().size()));
             key = Tuple(op.schema());
         }
         perform_aggregation(*it, tuple, *data);
@@ -1345,10 +1344,8 @@ void Pipeline::operator()(const GroupingOperator &op)
 void Pipeline::operator()(const AggregationOperator &op)
 {
     auto data = as<AggregationData>(op.data());
-    auto &nth_tuple = data->aggregates[op.schema().num_entries()].as_i();
 
     for (auto &tuple : block_) {
-        nth_tuple += 1UL;
         for (std::size_t i = 0, end = op.aggregates().size(); i != end; ++i) {
             auto &aggregate_arguments = data->args[i];
             Tuple *args[] = { &aggregate_arguments, &tuple };
@@ -1390,7 +1387,7 @@ void Pipeline::operator()(const AggregationOperator &op)
                     if (aggregate_arguments.is_null(0)) continue; // skip NULL
                     /* Compute AVG as iterative mean as described in Knuth, The Art of Computer Programming Vol 2,
                      * section 4.2.2. */
-                    val.as_d() += (aggregate_arguments[0].as_d() - val.as_d()) / nth_tuple;
+                    val.as_d() += (aggregate_arguments[0].as_d() - val.as_d()) / ++data->num_averaged[i];
                     break;
                 }
 
-- 
2.43.0


From ca60f78b4d6eff370ff173599487d3104b4f07ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:54 +0000
Subject: [PATCH 28/53] fix: scanning a table under an alias

---
 src/backend/Interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index ccdcf6f..12d3ecc 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -941,7 +941,7 @@ void Pipeline::operator()(const ScanOperator &op)
     const auto num_rows = store.num_rows();
 
     /* Compile StackMachine to load tuples from store. */
-    auto loader = Interpreter::compile_load(op.schema(), store.memory().addr(), table.layout(), table.schema());
+    auto loader = Interpreter::compile_load(op.schema(), store.memory().addr(), table.layout(), table.schema(op.alias()));
 
     const auto remainder = num_rows % block_.capacity();
     std::size_t i = 0;
-- 
2.43.0


From cb94fb79fea8cc3eef782e8bbfeda3c6281cff17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:54 +0000
Subject: [PATCH 29/53] fix: hash join lost rows after its parent erased tuples
 of a block

---
 src/backend/Interpreter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 12d3ecc..576bb3b 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -1048,6 +1048,7 @@ void Pipeline::operator()(const JoinOperator &op)
                 data->ht.for_all(*args[0], [&](std::pair<const Tuple, Tuple> &v) {
                     if (i == pipeline.block_.capacity()) {
                         pipeline.push(*op.parent());
+                        pipeline.block_.fill(); // the parent may have erased tuples
                         i = 0;
                     }
 
-- 
2.43.0


From 88ee84273d6de08bdf8b74a6fbb2e28a721e14f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:57 +0000
Subject: [PATCH 30/53] fix: ORDER BY of a result without rows aborted

---
 src/backend/Interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 576bb3b..a24031e 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -1637,7 +1637,7 @@ void Interpreter::operator()(const SortingOperator &op)
 {
     op.child(0)->accept(*this);
 
-    auto data = as<SortingData>(op.data());
+    auto data = cast<SortingData>(op.data());
     if (not data) // no tuples produced
         return;
 
-- 
2.43.0


From ba0316f026d2d70d0225188ac252b94614c9bad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:27 +0000
Subject: [PATCH 31/53] fix: NOT and ~ were accepted as binary operators

---
 src/parse/Parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse/Parser.cpp b/src/parse/Parser.cpp
index 9f4e1b0..0a76328 100644
--- a/src/parse/Parser.cpp
+++ b/src/parse/Parser.cpp
@@ -1044,6 +1044,7 @@ std::unique_ptr<Expr> Parser::parse_Expr(const int precedence_lhs, std::unique_p
 
     for (;;) {
         Token op = token();
+        if (op == TK_TILDE or op == TK_Not) return lhs; // not binary operators
         int p = get_precedence(op);
         if (precedence_lhs > p) return lhs; // left operator has higher precedence_lhs
         consume();
-- 
2.43.0


From 263be145afaaa081522636a19ca2f127228e3008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:27 +0000
Subject: [PATCH 32/53] fix: print key fields of an index in parentheses

---
 src/parse/ASTPrinter.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parse/ASTPrinter.cpp b/src/parse/ASTPrinter.cpp
index 1cd79e9..420900d 100644
--- a/src/parse/ASTPrinter.cpp
+++ b/src/parse/ASTPrinter.cpp
@@ -253,7 +253,17 @@ void ASTPrinter::operator()(Const<CreateIndexStmt> &s)
         auto &field = *it;
         if (it != s.key_fields.cbegin()) out << ',';
         out << "\n    ";
-        (*this)(*field);
+        auto d = cast<const Designator>(field.get());
+        const bool is_identifier = d and not d->has_explicit_table_name();
+        const bool has_parentheses = is<const UnaryExpr>(field.get()) or is<const BinaryExpr>(field.get()) or
+                                     is<const QueryExpr>(field.get());
+        if (is_identifier or has_parentheses) {
+            (*this)(*field);
+        } else { // any other expression must be parenthesized
+            out << '(';
+            (*this)(*field);
+            out << ')';
+        }
     }
     out << "\n);";
 }
-- 
2.43.0


From 632657894fdd531afd59e67abfb07134a9c6878c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:27 +0000
Subject: [PATCH 33/53] fix: print queries nested in the clauses of a statement

---
 src/parse/ASTPrinter.cpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/parse/ASTPrinter.cpp b/src/parse/ASTPrinter.cpp
index 420900d..adc977c 100644
--- a/src/parse/ASTPrinter.cpp
+++ b/src/parse/ASTPrinter.cpp
@@ -57,9 +57,12 @@ void ASTPrinter::operator()(Const<BinaryExpr> &e)
 void ASTPrinter::operator()(Const<QueryExpr> &e)
 {
     if (expand_nested_queries_) {
+        const bool was_nested = is_nested_;
+        is_nested_ = true;
         out << '(';
         (*this)(*e.query);
         out << ')';
+        is_nested_ = was_nested;
     } else {
         out << e.alias() << '.' << e.alias(); // name of artificial source followed by name of single result
     }
@@ -103,7 +106,8 @@ void ASTPrinter::operator()(Const<FromClause> &c)
 
 void ASTPrinter::operator()(Const<WhereClause> &c)
 {
-    out << "WHERE " << *c.where;
+    out << "WHERE ";
+    (*this)(*c.where);
 }
 
 void ASTPrinter::operator()(Const<GroupByClause> &c)
@@ -120,7 +124,8 @@ void ASTPrinter::operator()(Const<GroupByClause> &c)
 
 void ASTPrinter::operator()(Const<HavingClause> &c)
 {
-    out << "HAVING " << *c.having;
+    out << "HAVING ";
+    (*this)(*c.having);
 }
 
 void ASTPrinter::operator()(Const<OrderByClause> &c)
@@ -160,7 +165,9 @@ void ASTPrinter::operator()(Const<NotNullConstraint>&)
 
 void ASTPrinter::operator()(Const<CheckConditionConstraint> &c)
 {
-    out << "CHECK (" << *c.cond << ')';
+    out << "CHECK (";
+    (*this)(*c.cond);
+    out << ')';
 }
 
 void ASTPrinter::operator()(Const<ReferenceConstraint> &c)
@@ -330,7 +337,7 @@ void ASTPrinter::operator()(Const<InsertStmt> &s)
             switch (elem_it->first) {
                 case InsertStmt::I_Default: out << "DEFAULT";   break;
                 case InsertStmt::I_Null:    out << "NULL";      break;
-                case InsertStmt::I_Expr:    out << *elem_it->second;     break;
+                case InsertStmt::I_Expr:    (*this)(*elem_it->second); break;
             }
         }
         out << ')';
@@ -343,16 +350,23 @@ void ASTPrinter::operator()(Const<UpdateStmt> &s)
     out << "UPDATE " << s.table_name.text << "\nSET\n";
     for (auto it = s.set.cbegin(), end = s.set.cend(); it != end; ++it) {
         if (it != s.set.cbegin()) out << ",\n";
-        out << "    " << it->first.text << " = " << *it->second;
+        out << "    " << it->first.text << " = ";
+        (*this)(*it->second);
+    }
+    if (s.where) {
+        out << '\n';
+        (*this)(*s.where);
     }
-    if (s.where) out << '\n' << *s.where;
     out << ';';
 }
 
 void ASTPrinter::operator()(Const<DeleteStmt> &s)
 {
     out << "DELETE FROM " << s.table_name.text;
-    if (s.where) out << '\n' << *s.where;
+    if (s.where) {
+        out << '\n';
+        (*this)(*s.where);
+    }
     out << ';';
 }
 
-- 
2.43.0


From 7a046cc7afa696b91a3ab70d0dbea7ce7d40c606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:50 +0000
Subject: [PATCH 34/53] fix: DECIMAL(p, 0), as which the type is printed, was
 rejected

---
 src/parse/Parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse/Parser.cpp b/src/parse/Parser.cpp
index 0a76328..707cfa2 100644
--- a/src/parse/Parser.cpp
+++ b/src/parse/Parser.cpp
@@ -1163,7 +1163,10 @@ const Type * Parser::parse_data_type()
             if (not expect(TK_DEC_INT)) goto error_recovery;
             if (accept(TK_COMMA)) {
                 scale = token();
-                if (not expect(TK_DEC_INT)) goto error_recovery;
+                if (scale.type == TK_OCT_INT and streq(*scale.text, "0")) // zero is lexed as octal constant
+                    consume();
+                else if (not expect(TK_DEC_INT))
+                    goto error_recovery;
             }
             if (not expect(TK_RPAR)) goto error_recovery;
             errno = 0;
-- 
2.43.0


From 834663fc6a226dde6a91cbec060edc7f9f6d0454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:27 +0000
Subject: [PATCH 35/53] fix: calling something other than a name dereferenced a
 null pointer

---
 src/parse/Sema.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index c6a2be4..136e63d 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -507,8 +507,8 @@ void Sema::operator()(FnApplicationExpr &e)
     /* Analyze function name. */
     auto d = cast<Designator>(e.fn.get());
     if (not d or not d->is_identifier()) {
-        diag.e(d->attr_name.pos) << *d << " is not a valid function.\n";
-        d->type_ = e.type_ = Type::Get_Error();
+        diag.e(e.fn->tok.pos) << *e.fn << " is not a valid function.\n";
+        e.fn->type_ = e.type_ = Type::Get_Error();
         return;
     }
     M_insist(bool(d));
-- 
2.43.0


From b1ad3b0eaa5d65f6c415bf037afc85b552820c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:24 +0000
Subject: [PATCH 36/53] fix: a function in the values of an INSERT aborted

---
 src/parse/Sema.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 136e63d..ff05d4a 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -680,7 +680,10 @@ void Sema::operator()(FnApplicationExpr &e)
 
     switch (Ctx.stage) {
         case SemaContext::S_From:
-            M_unreachable("Function application in FROM clause is impossible");
+            /* The stage of statements without clauses, e.g. INSERT. */
+            diag.e(d->attr_name.pos) << "Function application is not allowed in this context.\n";
+            e.type_ = Type::Get_Error();
+            return;
 
         case SemaContext::S_Where:
             if (e.func_->is_aggregate()) {
-- 
2.43.0


From 0e8904fa36e64b0cfed9b88e03c7ef45ecf9e5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:24 +0000
Subject: [PATCH 37/53] fix: inserting a parenthesized NULL aborted

---
 src/parse/Sema.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index ff05d4a..7b0d26a 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1856,8 +1856,8 @@ void Sema::operator()(InsertStmt &s)
             switch (v.first) {
                 case InsertStmt::I_Expr: {
                     (*this)(*v.second);
-                    if (v.second->type()->is_error()) continue;
-                    auto ty = as<const PrimitiveType>(v.second->type());
+                    auto ty = v.second->type();
+                    if (ty->is_error()) continue;
                     if (ty->is_boolean() and attr.type->is_boolean())
                         break;
                     if (ty->is_character_sequence() and attr.type->is_character_sequence())
-- 
2.43.0


From 9a281854012011dd84f5a7440df5cfc88760226f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:24 +0000
Subject: [PATCH 38/53] fix: UPDATE and DELETE statements aborted instead of
 being refused

---
 src/parse/Sema.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 7b0d26a..6a3e29d 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1895,16 +1895,14 @@ void Sema::operator()(UpdateStmt &s)
 {
     RequireContext RCtx(this, s);
     /* TODO */
-    (void) s;
-    M_unreachable("Not implemented.");
+    diag.e(s.table_name.pos) << "UPDATE statements are not yet supported.\n";
 }
 
 void Sema::operator()(DeleteStmt &s)
 {
     RequireContext RCtx(this, s);
     /* TODO */
-    (void) s;
-    M_unreachable("Not implemented.");
+    diag.e(s.table_name.pos) << "DELETE statements are not yet supported.\n";
 }
 
 void Sema::operator()(DSVImportStmt &s)
-- 
2.43.0


From 840f5f7765d562b7711229f6a550de9869db7352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:24 +0000
Subject: [PATCH 39/53] fix: ORDER BY NULL aborted

---
 src/parse/Sema.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 6a3e29d..5c2d033 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1359,7 +1359,13 @@ void Sema::operator()(OrderByClause &c)
         if (e->contains_free_variables())
             diag.e(e->tok.pos) << *e << " contains free variable(s) (not yet supported).\n";
 
-        auto pt = as<const PrimitiveType>(e->type());
+        auto pt = cast<const PrimitiveType>(e->type());
+
+        /* Can only order by expressions of primitive type. */
+        if (not pt) {
+            diag.e(c.tok.pos) << "Cannot order by " << *e << ", has invalid type.\n";
+            continue;
+        }
 
         if (Ctx.needs_grouping) { // w/ grouping
             /* If we grouped, the grouping keys now have scalar type. */
-- 
2.43.0


From 89e9f44593ec99201c85211616aa5424c5b097a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:24 +0000
Subject: [PATCH 40/53] fix: NULL as a result of a query nested in FROM aborted

---
 src/parse/Sema.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 5c2d033..b8e562e 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -355,9 +355,11 @@ void Sema::operator()(Designator &e)
         const Type * operator()(const Attribute *attr) const { return attr->type; }
         const Type * operator()(const Expr *expr) const { return expr->type_; }
     };
-    const PrimitiveType *pt = cast<const PrimitiveType>(std::visit(get_type(), e.target_));
-    e.type_ = pt;
+    e.type_ = std::visit(get_type(), e.target_);
+    if (e.type()->is_error())
+        return; // already reported
 
+    const PrimitiveType *pt = cast<const PrimitiveType>(e.type());
     if (not is_result)
         e.type_ = pt->as_vectorial();
 
@@ -1231,8 +1233,16 @@ void Sema::operator()(FromClause &c)
             /* Add the results of the nested statement to the list of sources. */
             auto res = Ctx.sources.emplace(src.alias.text, std::make_pair(std::move(results), source_counter++));
             /* Convert scalar results to vectorials. */
-            for (auto &[_, result] : inner_ctx.results)
-                result.expr().type_ = as<const PrimitiveType>(result.expr().type())->as_vectorial();
+            for (auto &[_, result] : inner_ctx.results) {
+                auto pt = cast<const PrimitiveType>(result.expr().type());
+                if (not pt) {
+                    diag.e(result.expr().tok.pos) << "Result " << result.expr() << " of nested statement "
+                                                  << src.alias.text << " must be of primitive type.\n";
+                    result.expr().type_ = Type::Get_Error();
+                    continue;
+                }
+                result.expr().type_ = pt->as_vectorial();
+            }
             /* Check if the table name is already in use in other contexts. */
             bool unique = true;
             for (std::size_t i = 0; i < contexts_.size() - 1; ++i) {
-- 
2.43.0


From 5c6781aa31a1dba1b28dfb100fe33419ec83bdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:24 +0000
Subject: [PATCH 41/53] fix: an index method unavailable for the type of the
 key was not reported as an error

---
 src/parse/Sema.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index b8e562e..e177340 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1732,7 +1732,7 @@ void Sema::operator()(CreateIndexStmt &s)
         if constexpr(requires { typename Index<Key>; }) {
             return std::make_unique<Index<Key>>();
         } else {
-            diag(s.method.pos) << "Index method not available for given key type.\n";
+            diag.e(s.method.pos) << "Index method not available for given key type.\n";
             return nullptr;
         }
     };
-- 
2.43.0


From 8c967fa5fe711af577f6b8fe86a7a40ad836147e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:56 +0000
Subject: [PATCH 42/53] fix: nested aggregates and aggregates combined with
 values of rows were accepted and aborted

---
 src/parse/Sema.cpp | 49 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index e177340..b52bee0 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -12,6 +12,34 @@ using namespace m;
 using namespace m::ast;
 
 
+namespace {
+
+/** Returns `true` iff `expr` applies an aggregate function, directly or by referring to a result that does. */
+bool contains_aggregate(const ast::Expr &expr)
+{
+    auto recurse = overloaded {
+        [](const ast::Designator &d) -> bool {
+            if (not d.is_identifier()) return false;
+            auto target = std::get_if<const Expr*>(&d.target());
+            return target and contains_aggregate(**target);
+        },
+        [](const ast::FnApplicationExpr &e) -> bool {
+            if (e.has_function() and e.get_function().is_aggregate()) return true;
+            for (auto &arg : e.args) {
+                if (contains_aggregate(*arg)) return true;
+            }
+            return false;
+        },
+        [](const ast::UnaryExpr &e) -> bool { return contains_aggregate(*e.expr); },
+        [](const ast::BinaryExpr &e) -> bool { return contains_aggregate(*e.lhs) or contains_aggregate(*e.rhs); },
+        [](auto&) -> bool { return false; },
+    };
+    return visit(recurse, expr, m::tag<m::ast::ConstASTExprVisitor>());
+}
+
+}
+
+
 std::unique_ptr<DatabaseCommand> Sema::analyze(std::unique_ptr<ast::Command> ast)
 {
     (*this)(*ast); // perform semantic analysis
@@ -542,6 +570,17 @@ void Sema::operator()(FnApplicationExpr &e)
     }
     M_insist(e.func_);
 
+    /* Aggregates cannot be computed over aggregates. */
+    if (e.func_->is_aggregate()) {
+        for (auto &arg : e.args) {
+            if (contains_aggregate(*arg)) {
+                diag.e(d->attr_name.pos) << "Aggregate functions must not be nested.\n";
+                d->type_ = e.type_ = Type::Get_Error();
+                return;
+            }
+        }
+    }
+
     /* Infer the type of the function.  Functions are defined in an abstract way, where the type of the parameters is
      * not specified.  We must infer the parameter types and the return type of the function. */
     switch (e.func_->fnid) {
@@ -1141,6 +1180,14 @@ void Sema::operator()(SelectClause &c)
             continue;
         }
 
+        /* Aggregates are scalar and cannot be combined with values of individual rows. */
+        if (auto pt = cast<const PrimitiveType>(select_expr.type());
+            pt and pt->is_vectorial() and contains_aggregate(select_expr))
+        {
+            diag.e(select_expr.tok.pos) << select_expr << " combines an aggregate with vectorial values.\n";
+            continue;
+        }
+
         /* Constants and scalar values of nested queries can be broadcast from scalar to vectorial.  We collect the
          * scalar/vector-ness information of each expression in the SELECT clause. */
         if (not select_expr.is_constant() and not is<QueryExpr>(select_expr)) {
@@ -1385,6 +1432,8 @@ void Sema::operator()(OrderByClause &c)
             /* If we did not group, the ordering expressions must be vectorial. */
             if (pt->is_scalar())
                 diag.e(c.tok.pos) << "Cannot order by " << *e << ", expression must be vectorial.\n";
+            else if (contains_aggregate(*e))
+                diag.e(c.tok.pos) << "Cannot order by " << *e << ", it combines an aggregate with vectorial values.\n";
         }
     }
 }
-- 
2.43.0


From dbc4966dc66ed21b533e2bec27a988d63ccf138d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:48 +0000
Subject: [PATCH 43/53] fix: a recursive model index read past its last entry
 and broke on keys for which its models give no number

---
 include/mutable/storage/Index.hpp | 17 +++++++++++++----
 src/storage/Index.cpp             |  2 +-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/mutable/storage/Index.hpp b/include/mutable/storage/Index.hpp
index 7c6deb3..0d024dd 100644
--- a/include/mutable/storage/Index.hpp
+++ b/include/mutable/storage/Index.hpp
@@ -185,7 +185,7 @@ struct RecursiveModelIndex : ArrayIndex<Key>
             if (n == 0) return { 0.0, 0.0 };
             if (n == 1) return { 0.0, static_cast<double>(offset) * compression_factor };
             double numerator = static_cast<double>(n); // (offset + n) - offset
-            double denominator = static_cast<double>((*(last - 1)).first - (*first).first);
+            double denominator = static_cast<double>((*(last - 1)).first) - static_cast<double>((*first).first);
             double slope = denominator != 0 ? numerator/denominator * compression_factor : 0.0;
             double intercept = offset * compression_factor - slope * (*first).first;
             return { slope, intercept };
@@ -232,6 +232,13 @@ struct RecursiveModelIndex : ArrayIndex<Key>
     protected:
     std::vector<LinearModel> models_; ///< A vector of linear models to index the underlying data.
 
+    /** Converts the \p prediction of a model to a position in the range from 0 to \p last.  A prediction that is not a
+     * number is converted to 0. */
+    static std::size_t to_position(const double prediction, const std::size_t last) {
+        if (not (prediction > 0.)) return 0;
+        return prediction < static_cast<double>(last) ? static_cast<std::size_t>(prediction) : last;
+    }
+
     public:
     RecursiveModelIndex() : base_type() { }
 
@@ -268,13 +275,14 @@ struct RecursiveModelIndex : ArrayIndex<Key>
 
     private:
     std::size_t predict(const key_type key) const {
-        auto segment_id = std::clamp<double>(models_[0](key), 0, models_.size() - 2);
-        auto pred = std::clamp<double>(models_[segment_id + 1](key), 0, base_type::num_entries());
-        return static_cast<std::size_t>(pred);
+        if (base_type::num_entries() == 0) return 0;
+        auto segment_id = to_position(models_[0](key), models_.size() - 2);
+        return to_position(models_[segment_id + 1](key), base_type::num_entries() - 1);
     }
     const_iterator lower_bound_exponential_search(const_iterator pred, const key_type value) const {
         auto begin = base_type::begin();
         auto end = base_type::end();
+        if (begin == end) return end;
         std::size_t bound = 1;
         if (base_type::cmp(*pred, value)) { // search right side
             auto prev = pred;
@@ -299,6 +307,7 @@ struct RecursiveModelIndex : ArrayIndex<Key>
     const_iterator upper_bound_exponential_search(const_iterator pred, const key_type value) const {
         auto begin = base_type::begin();
         auto end = base_type::end();
+        if (begin == end) return end;
         std::size_t bound = 1;
         if (not base_type::cmp(value, *pred)) { // search right side
             auto prev = pred;
diff --git a/src/storage/Index.cpp b/src/storage/Index.cpp
index f16039b..f21ce96 100644
--- a/src/storage/Index.cpp
+++ b/src/storage/Index.cpp
@@ -183,7 +183,7 @@ void RecursiveModelIndex<Key>::finalize()
     );
 
     /* Train second layer. */
-    auto get_segment_id = [&](entry_type e) { return std::clamp<double>(models_[0](e.first), 0, n_models - 1);  };
+    auto get_segment_id = [&](entry_type e) { return RecursiveModelIndex::to_position(models_[0](e.first), n_models - 1); };
     std::size_t segment_start = 0;
     std::size_t segment_id = 0;
     for (std::size_t i = 0; i != n_keys; ++i) {
-- 
2.43.0


From b3d0ea3a5adb9b0d00a0adab40704b6a099fc8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:34 +0000
Subject: [PATCH 44/53] fix: trailing text after a number and negative values
 of unsigned options were accepted on the command line

---
 src/util/ArgParser.cpp | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/util/ArgParser.cpp b/src/util/ArgParser.cpp
index c7a059d..6e05b52 100644
--- a/src/util/ArgParser.cpp
+++ b/src/util/ArgParser.cpp
@@ -31,25 +31,34 @@ void help_parse(const char **&argv, const std::function<void(T)> &callback)
     check_next_arg(argv);
 
     T i;
+    std::size_t len; // number of characters converted
     try {
+        /* The conversion functions accept negative input for unsigned types. */
+        if constexpr (std::is_unsigned_v<T>) {
+            if (std::string_view(*argv).find('-') != std::string_view::npos)
+                throw std::invalid_argument("negative input for unsigned type");  //M_LCOV_EXCL_LINE
+        }
         /*----- Signed integer types. -----*/
         if constexpr (std::same_as<T, int>)
-            i = std::stoi(*argv);
+            i = std::stoi(*argv, &len);
         if constexpr (std::same_as<T, long>)
-            i = std::stol(*argv);
+            i = std::stol(*argv, &len);
         if constexpr (std::same_as<T, long long>)
-            i = std::stoll(*argv);
+            i = std::stoll(*argv, &len);
         /*----- Unsigned integer types. -----*/
         if constexpr (std::same_as<T, unsigned>) {
-            const unsigned long v = std::stoul(*argv);
+            const unsigned long v = std::stoul(*argv, &len);
             if (v > std::numeric_limits<unsigned>::max())
                 throw std::out_of_range("input exceeds range of type unsigned int");  //M_LCOV_EXCL_LINE
             i = unsigned(v);
         }
         if constexpr (std::same_as<T, unsigned long>)
-            i = std::stoul(*argv);
+            i = std::stoul(*argv, &len);
         if constexpr (std::same_as<T, unsigned long long>)
-            i = std::stoull(*argv);
+            i = std::stoull(*argv, &len);
+
+        if ((*argv)[len] != '\0')
+            throw std::invalid_argument("input is not entirely a number");  //M_LCOV_EXCL_LINE
     }
 
     M_LCOV_EXCL_START
@@ -73,13 +82,17 @@ void help_parse(const char **&argv, const std::function<void(T)> &callback)
     check_next_arg(argv);
 
     T fp;
+    std::size_t len; // number of characters converted
     try {
         if constexpr (std::same_as<T, float>)
-            fp = std::stof(*argv);
+            fp = std::stof(*argv, &len);
         if constexpr (std::same_as<T, double>)
-            fp = std::stod(*argv);
+            fp = std::stod(*argv, &len);
         if constexpr (std::same_as<T, long double>)
-            fp = std::stold(*argv);
+            fp = std::stold(*argv, &len);
+
+        if ((*argv)[len] != '\0')
+            throw std::invalid_argument("input is not entirely a number");  //M_LCOV_EXCL_LINE
     }
 
     M_LCOV_EXCL_START
-- 
2.43.0


From ceec65b5de8229f9af944aa9dfbd4bda904addda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:14 +0000
Subject: [PATCH 45/53] fix: scheduling a command while another one is pending
 dereferenced the end of the queue

---
 src/catalog/SerialScheduler.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index 1fc9b92..14d716e 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -48,15 +48,15 @@ void SerialScheduler::CommandQueue::push(Transaction &t, std::unique_ptr<ast::Co
 
     /* Check if transaction `t` already has elements in the queue, if not then check if the transaction is the currently
      * running transaction. If yes, then emplace the command in the front, otherwise emplace at the end. */
-    auto it = std::find_if(command_list_.rend(), command_list_.rbegin(),
+    auto it = std::find_if(command_list_.rbegin(), command_list_.rend(),
             [&t](queued_command &x){ return (t == std::get<0>(x)); }
     );
     if (running_transaction_ and *running_transaction_ == t and it == command_list_.rend())
         command_list_.emplace_front(t, std::move(command), diag, std::move(promise));
-    else if (it == command_list_.rbegin())
+    else if (it == command_list_.rend())
         command_list_.emplace_back(t, std::move(command), diag, std::move(promise));
     else
-        command_list_.emplace(++it.base(), t, std::move(command), diag, std::move(promise));
+        command_list_.emplace(it.base(), t, std::move(command), diag, std::move(promise));
 
     lock.unlock();
     has_element_.notify_one();
-- 
2.43.0


From 34973a272107d31a5c7fcf81050bae97d67bab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:00 +0000
Subject: [PATCH 46/53] fix: importing a row with surplus cells left a row
 without values and shifted the rows that follow

---
 src/io/DSVReader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 1d12b69..71574ce 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -125,6 +125,8 @@ void DSVReader::operator()(std::istream &in, const char *name)
         if (c != EOF and c != '\n') {
             diag.e(pos) << "Expected end of row.\n";
             discard_row();
+            --idx;
+            store.drop(); // drop the malformed row
         } else {
             if (layout != &table.layout()) {
                 /* The data layout was updated, recompile stack machine. */
-- 
2.43.0


From 8a79b2eaa2ad2f8d27bb671476a85908b0c24915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:00 +0000
Subject: [PATCH 47/53] fix: the byte 255 was taken for the end of the input
 when importing

---
 include/mutable/io/Reader.hpp | 15 ++++++++------
 src/io/DSVReader.cpp          | 37 +++++++++++++++++------------------
 2 files changed, 27 insertions(+), 25 deletions(-)

diff --git a/include/mutable/io/Reader.hpp b/include/mutable/io/Reader.hpp
index ff1fe1d..d9f51cc 100644
--- a/include/mutable/io/Reader.hpp
+++ b/include/mutable/io/Reader.hpp
@@ -71,7 +71,7 @@ struct M_EXPORT DSVReader : Reader, ConstTypeVisitor
     Config cfg_;
 
     Position pos;
-    char c;
+    int c; ///< the current character, or `EOF`
     std::istream *in = nullptr;
     std::vector<char> buf;
     Tuple tup; ///< intermediate tuple to store values of a row
@@ -116,17 +116,20 @@ struct M_EXPORT DSVReader : Reader, ConstTypeVisitor
         return c = in->get();
     };
 
-    void push() { buf.push_back(c); step(); }
+    /** Converts \p chr the way it is read from the input stream, i.e. to a value different from `EOF`. */
+    static int to_int(char chr) { return static_cast<unsigned char>(chr); }
 
-    bool accept(char chr) { if (c == chr) { step(); return true; } return false; }
+    void push() { buf.push_back(static_cast<char>(c)); step(); }
+
+    bool accept(char chr) { if (c == to_int(chr)) { step(); return true; } return false; }
 
     void discard_cell() {
-        if (c == config().quote) {
+        if (c == to_int(config().quote)) {
             step();
-            while (c != EOF and c != '\n' and c != config().quote) { step(); }
+            while (c != EOF and c != '\n' and c != to_int(config().quote)) { step(); }
             accept(config().quote);
         } else
-            while (c != EOF and c != '\n' and c != config().delimiter) { step(); }
+            while (c != EOF and c != '\n' and c != to_int(config().delimiter)) { step(); }
     }
     void discard_row() { while (c != EOF and c != '\n') { step(); } }
 
diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 71574ce..dbec033 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -53,9 +53,8 @@ void DSVReader::operator()(std::istream &in, const char *name)
 
     auto read_cell = [&]() -> ThreadSafePooledString {
         buf.clear();
-        while (c != EOF and c != '\n' and c != config().delimiter) {
-            buf.push_back(c);
-            step();
+        while (c != EOF and c != '\n' and c != to_int(config().delimiter)) {
+            push();
         }
         buf.push_back(0);
         return C.pool(&buf[0]);
@@ -70,7 +69,7 @@ void DSVReader::operator()(std::istream &in, const char *name)
                 attr = &table.at(name);
             } catch (std::out_of_range) { /* nothing to do */ }
             columns.push_back(attr);
-            if (c == config().delimiter)
+            if (c == to_int(config().delimiter))
                 step(); // discard delimiter
         }
         M_insist(c == EOF or c == '\n');
@@ -111,7 +110,7 @@ void DSVReader::operator()(std::istream &in, const char *name)
             }
 
             if (col) { // current cell should be read
-                if ((i == columns.size() - 1 and c == '\n') or (i < columns.size() - 1 and c == config().delimiter)) { // NULL
+                if ((i == columns.size() - 1 and c == '\n') or (i < columns.size() - 1 and c == to_int(config().delimiter))) { // NULL
                     tup.null(col->id);
                     continue; // keep delimiter (expected at beginning of each loop)
                 }
@@ -157,7 +156,7 @@ end_of_row:
 void DSVReader::operator()(Const<Boolean>&)
 {
     buf.clear();
-    while (c != EOF and c != '\n' and c != config().delimiter) { push(); }
+    while (c != EOF and c != '\n' and c != to_int(config().delimiter)) { push(); }
     buf.push_back(0);
     if (streq("TRUE", &buf[0]))
         tup.set(col_idx, true);
@@ -177,11 +176,11 @@ void DSVReader::operator()(Const<CharacterSequence>&)
     if (accept(config().quote)) {
         if (config().escape == config().quote) { // RFC 4180
             while (c != EOF) {
-                if (c != config().quote) {
+                if (c != to_int(config().quote)) {
                     push();
                 } else {
                     step();
-                    if (c == config().quote)
+                    if (c == to_int(config().quote))
                         push();
                     else
                         break;
@@ -189,10 +188,10 @@ void DSVReader::operator()(Const<CharacterSequence>&)
             }
         } else {
             while (c != EOF) {
-                if (c == config().quote) {
+                if (c == to_int(config().quote)) {
                     step();
                     break;
-                } else if (c == config().escape) {
+                } else if (c == to_int(config().escape)) {
                     step();
                     push();
                 } else {
@@ -201,12 +200,12 @@ void DSVReader::operator()(Const<CharacterSequence>&)
             }
         }
     } else {
-        while (c != EOF and c != '\n' and c != config().delimiter) {
-            if (c == config().quote) {
+        while (c != EOF and c != '\n' and c != to_int(config().delimiter)) {
+            if (c == to_int(config().quote)) {
                 diag.e(pos) << "WARNING: Illegal character " << config().quote << " found in unquoted string.\n";
                 /* Entire cell is discarded. */
                 tup.null(col_idx);
-                while (c != EOF and c != '\n' and c != config().delimiter) step();
+                while (c != EOF and c != '\n' and c != to_int(config().delimiter)) step();
                 return;
             } else
                 push();
@@ -293,10 +292,10 @@ void DSVReader::operator()(Const<Numeric> &ty)
             else
                 accept('+');
             int64_t i = read_unsigned_int();
-            if (c != EOF and c != '\n' and c != config().delimiter) {
+            if (c != EOF and c != '\n' and c != to_int(config().delimiter)) {
                 diag.e(pos) << "WARNING: Unexpected characters encountered in an integer.\n";
                 tup.null(col_idx);
-                while (c != EOF and c != '\n' and c != config().delimiter) step();
+                while (c != EOF and c != '\n' and c != to_int(config().delimiter)) step();
                 return;
             }
             if (is_neg) i = -i;
@@ -329,10 +328,10 @@ void DSVReader::operator()(Const<Numeric> &ty)
                 while (is_dec(c)) { step(); }
                 d += d >= 0 ? post_dot : -post_dot;
             }
-            if (c != EOF and c != '\n' and c != config().delimiter) {
+            if (c != EOF and c != '\n' and c != to_int(config().delimiter)) {
                 diag.e(pos) << "WARNING: Unexpected characters encountered in a decimal.\n";
                 tup.null(col_idx);
-                while (c != EOF and c != '\n' and c != config().delimiter) step();
+                while (c != EOF and c != '\n' and c != to_int(config().delimiter)) step();
                 return;
             }
             if (is_neg) d = -d;
@@ -342,8 +341,8 @@ void DSVReader::operator()(Const<Numeric> &ty)
 
         case Numeric::N_Float: {
             std::string float_str;
-            while(c != EOF and c != '\n' and c != config().delimiter) {
-                float_str += c;
+            while(c != EOF and c != '\n' and c != to_int(config().delimiter)) {
+                float_str += static_cast<char>(c);
                 step();
             }
             char* end;
-- 
2.43.0


From 2cd041b8f5aeb6d1e7d37084088f96af0e61bb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:00 +0000
Subject: [PATCH 48/53] fix: a malformed Boolean was imported as the value of
 the previous row

---
 src/io/DSVReader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index dbec033..42c100a 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -162,8 +162,10 @@ void DSVReader::operator()(Const<Boolean>&)
         tup.set(col_idx, true);
     else if (streq("FALSE", &buf[0]))
         tup.set(col_idx, false);
-    else
+    else {
         diag.e(pos) << "Expected TRUE or FALSE.\n";
+        tup.null(col_idx);
+    }
 }
 
 void DSVReader::operator()(Const<CharacterSequence>&)
-- 
2.43.0


From 7f69e348c874b80d2e1564e86065098311c70c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:00 +0000
Subject: [PATCH 49/53] fix: an empty cell at the end of the input was not
 imported as NULL

---
 src/io/DSVReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 42c100a..ac6900d 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -110,7 +110,7 @@ void DSVReader::operator()(std::istream &in, const char *name)
             }
 
             if (col) { // current cell should be read
-                if ((i == columns.size() - 1 and c == '\n') or (i < columns.size() - 1 and c == to_int(config().delimiter))) { // NULL
+                if ((i == columns.size() - 1 and (c == EOF or c == '\n')) or (i < columns.size() - 1 and c == to_int(config().delimiter))) { // NULL
                     tup.null(col->id);
                     continue; // keep delimiter (expected at beginning of each loop)
                 }
-- 
2.43.0


From 79228c70e0208c8203b42bcedc2cae53ec81ca52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:00 +0000
Subject: [PATCH 50/53] fix: an escape character at the end of the input
 appended the end-of-file marker to the imported string

---
 src/io/DSVReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index ac6900d..5d686cb 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -195,7 +195,7 @@ void DSVReader::operator()(Const<CharacterSequence>&)
                     break;
                 } else if (c == to_int(config().escape)) {
                     step();
-                    push();
+                    if (c != EOF) push();
                 } else {
                     push();
                 }
-- 
2.43.0


From a4f9c463615f4c56f0fe8951a8d62ed78de10f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:34 +0000
Subject: [PATCH 51/53] fix: imported integers and decimals out of range or
 without digits became other values

---
 include/mutable/io/Reader.hpp |  8 ++++-
 src/io/DSVReader.cpp          | 57 ++++++++++++++++++++---------------
 2 files changed, 40 insertions(+), 25 deletions(-)

diff --git a/include/mutable/io/Reader.hpp b/include/mutable/io/Reader.hpp
index d9f51cc..ca67b16 100644
--- a/include/mutable/io/Reader.hpp
+++ b/include/mutable/io/Reader.hpp
@@ -6,6 +6,7 @@
 #include <mutable/IR/Tuple.hpp>
 #include <mutable/storage/Store.hpp>
 #include <mutable/util/Diagnostic.hpp>
+#include <optional>
 
 
 namespace m {
@@ -133,7 +134,12 @@ struct M_EXPORT DSVReader : Reader, ConstTypeVisitor
     }
     void discard_row() { while (c != EOF and c != '\n') { step(); } }
 
-    int64_t read_unsigned_int();
+    /** Reads a sequence of digits as a number, negated if \p is_neg.  Returns `std::nullopt` if there are no digits or
+     * the number exceeds the range of `int64_t`. */
+    std::optional<int64_t> read_digits(bool is_neg);
+
+    /** Reports a malformed number, imports it as NULL, and discards the cell. */
+    void invalid_number(const char *msg);
 };
 
 }
diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 5d686cb..8dce38f 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -286,6 +286,9 @@ invalid:
 
 void DSVReader::operator()(Const<Numeric> &ty)
 {
+    /* Checks whether the value of an integral type fits into the size of the attribute. */
+    auto fits = [&ty](int64_t v) { v >>= ty.size() - 1; return v == 0 or v == -1; };
+
     switch (ty.kind) {
         case Numeric::N_Int: {
             bool is_neg = false;
@@ -293,15 +296,12 @@ void DSVReader::operator()(Const<Numeric> &ty)
                 is_neg = true;
             else
                 accept('+');
-            int64_t i = read_unsigned_int();
-            if (c != EOF and c != '\n' and c != to_int(config().delimiter)) {
-                diag.e(pos) << "WARNING: Unexpected characters encountered in an integer.\n";
-                tup.null(col_idx);
-                while (c != EOF and c != '\n' and c != to_int(config().delimiter)) step();
-                return;
-            }
-            if (is_neg) i = -i;
-            tup.set(col_idx, i);
+            const auto i = read_digits(is_neg);
+            if (c != EOF and c != '\n' and c != to_int(config().delimiter))
+                return invalid_number("WARNING: Unexpected characters encountered in an integer.\n");
+            if (not i or not fits(*i))
+                return invalid_number("WARNING: Integer without digits or out of range.\n");
+            tup.set(col_idx, *i);
             break;
         }
 
@@ -313,10 +313,13 @@ void DSVReader::operator()(Const<Numeric> &ty)
                 is_neg = true;
             else
                 accept('+');
-            int64_t d = read_unsigned_int();
-            // std::cerr << "Read: " << d;
-            d = d * powi(10, scale);
+            bool has_digits = is_dec(c);
+            const auto pre_dot = has_digits ? read_digits(is_neg) : 0;
+            bool in_range = pre_dot.has_value();
+            int64_t d = pre_dot.value_or(0);
+            in_range &= not __builtin_mul_overflow(d, powi<int64_t>(10, scale), &d);
             if (accept('.')) {
+                has_digits |= is_dec(c);
                 /* Read post dot digits. */
                 int64_t post_dot = 0;
                 auto n = scale;
@@ -325,18 +328,15 @@ void DSVReader::operator()(Const<Numeric> &ty)
                     step();
                     n--;
                 }
-                post_dot *= powi(10, n);
+                post_dot *= powi<int64_t>(10, n);
                 /* Discard further digits */
                 while (is_dec(c)) { step(); }
-                d += d >= 0 ? post_dot : -post_dot;
+                in_range &= not __builtin_add_overflow(d, is_neg ? -post_dot : post_dot, &d);
             }
-            if (c != EOF and c != '\n' and c != to_int(config().delimiter)) {
-                diag.e(pos) << "WARNING: Unexpected characters encountered in a decimal.\n";
-                tup.null(col_idx);
-                while (c != EOF and c != '\n' and c != to_int(config().delimiter)) step();
-                return;
-            }
-            if (is_neg) d = -d;
+            if (c != EOF and c != '\n' and c != to_int(config().delimiter))
+                return invalid_number("WARNING: Unexpected characters encountered in a decimal.\n");
+            if (not has_digits or not in_range or not fits(d))
+                return invalid_number("WARNING: Decimal without digits or out of range.\n");
             tup.set(col_idx, d);
             break;
         }
@@ -376,12 +376,21 @@ void DSVReader::operator()(Const<NoneType>&) { M_unreachable("invalid type"); }
 void DSVReader::operator()(Const<Bitmap>&) { M_unreachable("invalid type"); }
 void DSVReader::operator()(Const<FnType>&) { M_unreachable("invalid type"); }
 
-int64_t DSVReader::read_unsigned_int()
+std::optional<int64_t> DSVReader::read_digits(bool is_neg)
 {
     int64_t i = 0;
+    bool valid = is_dec(c);
     while (is_dec(c)) {
-        i = 10 * i + c - '0';
+        const int64_t digit = is_neg ? '0' - c : c - '0';
+        valid = valid and not __builtin_mul_overflow(i, int64_t(10), &i) and not __builtin_add_overflow(i, digit, &i);
         step();
     }
-    return i;
+    return valid ? std::optional<int64_t>(i) : std::nullopt;
+}
+
+void DSVReader::invalid_number(const char *msg)
+{
+    diag.e(pos) << msg;
+    tup.null(col_idx);
+    while (c != EOF and c != '\n' and c != to_int(config().delimiter)) step();
 }
-- 
2.43.0


From 99931185eef2d87ab4df513f610a27c8e911c88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:34 +0000
Subject: [PATCH 52/53] fix: a floating-point number below the range was
 imported as the smallest positive number

---
 src/io/DSVReader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 8dce38f..2ed23fc 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -350,7 +350,7 @@ void DSVReader::operator()(Const<Numeric> &ty)
             char* end;
             errno = 0;
             double d = std::strtod(float_str.c_str(), &end);
-            if (*end != '\0') {
+            if (*end != '\0' or end == float_str.c_str()) {
                 diag.e(pos) << "WARNING: Unexpected characters encountered in a floating-point number.\n";
                 tup.null(col_idx);
                 return;
@@ -360,7 +360,7 @@ void DSVReader::operator()(Const<Numeric> &ty)
                 d = std::numeric_limits<double>::max();
             } else if ( errno == ERANGE and (d == -HUGE_VAL or d == -HUGE_VALF or d == -HUGE_VALL ) ) {
                 diag.w(pos) << "WARNING: A floating-point number is smaller than the minimum value.\n";
-                d = std::numeric_limits<double>::min();
+                d = std::numeric_limits<double>::lowest();
             }
             if (ty.is_float())
                 tup.set(col_idx, float(d));
-- 
2.43.0


From 4b9024e478fb8577386566f162659c51dfa91bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:00 +0000
Subject: [PATCH 53/53] fix: skipping an empty headline also skipped the first
 row of the imported file

---
 src/io/DSVReader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 2ed23fc..f464515 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -78,7 +78,8 @@ void DSVReader::operator()(std::istream &in, const char *name)
         for (auto &attr : table)
             columns.push_back(&attr);
         if (config().skip_header) {
-            in.ignore(std::numeric_limits<std::streamsize>::max(), '\n'); // skip entire line
+            if (c != '\n') // first character was already read
+                in.ignore(std::numeric_limits<std::streamsize>::max(), '\n'); // skip entire line
             c = '\n';
             step(); // skip newline
         }
-- 
2.43.0

