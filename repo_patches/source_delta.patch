From 36ea44075d7848e7fef8fc9544353aa9fdd3c81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:41 +0000
Subject: [PATCH 01/15] fix: set the wake-all flag of the queue under its mutex
 (lost wake-up, data race)

---
 src/parallel/SimpleConcurrenceQueue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parallel/SimpleConcurrenceQueue.h b/src/parallel/SimpleConcurrenceQueue.h
index f5d8c49..395a453 100644
--- a/src/parallel/SimpleConcurrenceQueue.h
+++ b/src/parallel/SimpleConcurrenceQueue.h
@@ -72,6 +72,7 @@ public:
     }
 
     void notifyAllPop() {
+        std::lock_guard<std::mutex> _(m_mutex);
         m_alwaysPop = true;
         m_cond.notify_all();
     }
-- 
2.43.0


From 3b9f924602338f72556e22d5b350633791c741cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:41 +0000
Subject: [PATCH 02/15] fix: ThreadPool construction stops its workers when a
 thread cannot be created

---
 src/parallel/ThreadPool.h | 44 +++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/parallel/ThreadPool.h b/src/parallel/ThreadPool.h
index db12b5e..55b5e9f 100644
--- a/src/parallel/ThreadPool.h
+++ b/src/parallel/ThreadPool.h
@@ -17,29 +17,29 @@ class ThreadPool {
 public:
     ThreadPool(std::size_t nThreads = kDefaultNThreads) : m_running(true) {
         m_threads.resize(nThreads);
-        for (auto &t : m_threads) {
-            t = std::thread([this]() {
-                while (true) {
-                    RawTask task{nullptr};
-                    if (m_tasks.pop(task)) {
-                        PGZXB_DEBUG_ASSERT(!!task);
-                        task();
-                    }
-                    if (!m_running && m_tasks.empty()) {
-                        return;
+        try {
+            for (auto &t : m_threads) {
+                t = std::thread([this]() {
+                    while (true) {
+                        RawTask task{nullptr};
+                        if (m_tasks.pop(task)) {
+                            PGZXB_DEBUG_ASSERT(!!task);
+                            task();
+                        }
+                        if (!m_running && m_tasks.empty()) {
+                            return;
+                        }
                     }
-                }
-            });
+                });
+            }
+        } catch (...) { // Failed to create a thread: stop those already started
+            stop();
+            throw;
         }
     }
 
     ~ThreadPool() {
-        m_running = false;
-        m_tasks.notifyAllPop();
-        for (auto &t : m_threads) {
-            PGZXB_DEBUG_ASSERT(t.joinable());
-            t.join();
-        }
+        stop();
     }
 
     template <typename F, typename ...Args>
@@ -62,6 +62,14 @@ public:
     }
 
 private:
+    void stop() {
+        m_running = false;
+        m_tasks.notifyAllPop();
+        for (auto &t : m_threads) {
+            if (t.joinable()) t.join();
+        }
+    }
+
     std::atomic<bool> m_running{false};
     TaskQueue m_tasks;
     std::vector<std::thread> m_threads;
-- 
2.43.0


From fb3f840f73bf5240fdcc03ec392ef2dbd7d775d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:41 +0000
Subject: [PATCH 03/15] fix: use one worker thread when the number of CPUs is
 unknown

---
 src/eval.cpp              | 4 +++-
 src/parallel/ThreadPool.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index 434c1dd..19488dc 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -5,6 +5,8 @@
 #include "infixExpr/ExprParser.h"
 #include "parallel/ThreadPool.h"
 
+#include <algorithm>
+
 using namespace pgbn;
 using namespace pg::base;
 using namespace pgbn::expr;
@@ -29,7 +31,7 @@ Int pgbn::expr::eval(const StringArg &expr, Status *status) {
 
 Int pgbn::expr::peval(const StringArg &expr, int threads, Status *status) {
     if (threads == 0) return eval(expr, status);
-    if (threads < 0) threads = std::thread::hardware_concurrency();
+    if (threads < 0) threads = std::max(1U, std::thread::hardware_concurrency());
     if (!status) status = Status::getInstance();
 
     NodePool nodePool;
diff --git a/src/parallel/ThreadPool.h b/src/parallel/ThreadPool.h
index 55b5e9f..d3361db 100644
--- a/src/parallel/ThreadPool.h
+++ b/src/parallel/ThreadPool.h
@@ -4,13 +4,15 @@
 #include "fwd.h"
 #include "SimpleConcurrenceQueue.h"
 
+#include <algorithm>
 #include <atomic>
 #include <memory>
 #include <thread>
 #include <future>
 
 PGBN_PARALLEL_NAMESPACE_START
-inline static auto kDefaultNThreads = std::thread::hardware_concurrency();
+// hardware_concurrency() may return 0 (unknown), but a pool needs at least one worker
+inline static auto kDefaultNThreads = std::max(1U, std::thread::hardware_concurrency());
 
 class ThreadPool {
     using TaskQueue = SimpleConcurrenceQueue<RawTask>;
-- 
2.43.0


From b7b54cfad1563899a49d4f582cb4c3524631eb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:06 +0000
Subject: [PATCH 04/15] fix: peval passes on the exception of a node instead of
 waiting forever

---
 src/infixExpr/ExprTree.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index 5697f2f..624ebe9 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -133,8 +133,12 @@ static void pevalTask(ExprNode * node) {
     // std::ostringstream oss;
     // oss << std::this_thread::get_id();
     // std::cerr << pgfmt::format("Thread#{0} node#{1} start\n", oss.str(), (std::uint64_t)node );
-    auto temp = node->evalCallback(node, true);
-    node->valPromise.set_value(temp);
+    try {
+        auto temp = node->evalCallback(node, true);
+        node->valPromise.set_value(temp);
+    } catch (...) { // pass it on, or whoever waits for this node waits forever
+        node->valPromise.set_exception(std::current_exception());
+    }
     // std::cerr << pgfmt::format("Thread#{0} node#{1}: peval = {2}\n", oss.str(),
     //     (std::uint64_t)node, temp.cmp(INT64_MAX) == 1 ? temp.toString(10).substr(0, 50).append("...") : temp.toString(10));
 }
-- 
2.43.0


From 3085e823c69a61d9f01f4b22d6820a2075f57466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:45 +0000
Subject: [PATCH 05/15] fix: peval evaluates only the branch of a conditional
 that is taken

---
 src/eval.cpp               | 57 ++++++++++++++++++++++++++++++--------
 src/infixExpr/ExprTree.cpp |  3 +-
 2 files changed, 48 insertions(+), 12 deletions(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index 19488dc..2cc9f67 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -47,34 +47,69 @@ Int pgbn::expr::peval(const StringArg &expr, int threads, Status *status) {
     std::queue<std::uint32_t> q;
     std::vector<std::uint32_t> parents(N);
     std::vector<std::uint32_t> childCnt(N);
+    std::vector<ExprNode*> stack;
+    std::vector<ExprNode*> conds; // conditions (of ?:) evaluated in the current level
+    std::uint32_t total = 0; // count of nodes to be evaluated
 
-    for (std::uint32_t i = 0; i < N; ++i) {
-        auto * node = nodePool.get(i);
-        const auto & children = node->children;
-        if (children.size() == 0) q.push(i);
-        childCnt[i] = children.size();
-        for (const auto * child : children) {
-            PGZXB_DEBUG_ASSERT(child->indexInPool < N);
-            parents[child->indexInPool] = i;
+    // Plan the evaluation of from and the nodes it depends on.
+    // Of a conditional only the condition: which branch is needed depends on its value
+    auto activate = [&] (ExprNode * from) {
+        stack.push_back(from);
+        while (!stack.empty()) {
+            auto * node = stack.back();
+            stack.pop_back();
+            ++total;
+            const auto & children = node->children;
+            const std::uint32_t cnt = node->nodeType == TokenType::QMARK ? 1 : children.size();
+            childCnt[node->indexInPool] = cnt;
+            if (cnt == 0) q.push(node->indexInPool);
+            for (std::uint32_t i = cnt; i-- > 0; ) {
+                PGZXB_DEBUG_ASSERT(children[i]->indexInPool < N);
+                parents[children[i]->indexInPool] = node->indexInPool;
+                stack.push_back(children[i]);
+            }
         }
-    }
+    };
+    activate(root);
 
     std::uint32_t cnt = 0;
     std::vector<std::future<void>> currLevelFu;
-    while (cnt != N) {
+    while (cnt != total) {
         const std::uint32_t cntInQueue = q.size();
         for (std::uint32_t i = 0; i < cntInQueue; ++i, ++cnt) {
             auto childIndex = q.front();
             auto * child = nodePool.get(childIndex);
             q.pop();
             currLevelFu.push_back(threadPool.addTask(child->pevalTask, child));
-            if (--childCnt[parents[childIndex]] == 0) {
+            if (child == root) continue;
+            auto * parent = nodePool.get(parents[childIndex]);
+            if (parent->nodeType == TokenType::QMARK && parent->children.size() == 3) {
+                conds.push_back(child);
+            } else if (--childCnt[parents[childIndex]] == 0) {
                 q.push(parents[childIndex]);
             }
         }
         for (auto &fu : currLevelFu) {
             fu.wait(); // Wait
         }
+        for (auto * cond : conds) { // The values of the conditions are known now, choose the branches
+            auto * node = nodePool.get(parents[cond->indexInPool]);
+            ExprNode * chosen = nullptr;
+            try {
+                chosen = node->children[cond->valPromise.get_future().get().isZero() ? 2 : 1];
+            } catch (...) { // No branch, the conditional fails as its condition did
+                cond->valPromise = std::promise<infixExpr::Value>();
+                cond->valPromise.set_exception(std::current_exception());
+            }
+            node->children.assign(1, chosen ? chosen : cond);
+            if (chosen) {
+                parents[chosen->indexInPool] = node->indexInPool;
+                activate(chosen);
+            } else {
+                q.push(node->indexInPool);
+            }
+        }
+        conds.clear();
     }
 
     // Blocking get result
diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index 624ebe9..c0e8b2e 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -12,8 +12,9 @@ inline static Value eval(ExprNode * node, bool peval) {
 }
 
 static Value ifElseNodeEvalCallback(ExprNode * node, bool peval) {
-    PGZXB_DEBUG_ASSERT(node->children.size() == 3);
     auto & ch = node->children;
+    if (peval && ch.size() == 1) return eval(ch[0], peval); // The branch which was chosen
+    PGZXB_DEBUG_ASSERT(node->children.size() == 3);
     return !eval(ch[0], peval).isZero() ? eval(ch[1], peval) : eval(ch[2], peval);
 }
 
-- 
2.43.0


From dd56138c7c0f3fab4d3914fa30dc27acbf379fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:40 +0000
Subject: [PATCH 06/15] fix: writing a number whose last copy another thread
 dropped raced with that thread's reads

---
 src/Slice.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Slice.h b/src/Slice.h
index 788ea54..8b52514 100644
--- a/src/Slice.h
+++ b/src/Slice.h
@@ -1,6 +1,7 @@
 #ifndef PGBIGNUMBER_SLICE_H
 #define PGBIGNUMBER_SLICE_H
 
+#include <atomic>
 #include <vector>
 #include <memory>
 #include <algorithm>
@@ -72,7 +73,12 @@ public:
     }
 
     Slice & cloneData() {
-        if (!m_data || m_data.use_count() == 1) return *this;
+        if (!m_data) return *this;
+        if (m_data.use_count() == 1) {
+            // The last other owner may have been another thread: what it read, it read before we write
+            std::atomic_thread_fence(std::memory_order_acquire);
+            return *this;
+        }
 
         std::shared_ptr<Vec> newData(new Vec(DEFAULT_PRE_SPACE + m_hi - m_lo));
         std::copy(m_data->begin() + m_lo, m_data->begin() + m_hi, newData->begin() + DEFAULT_PRE_SPACE);
-- 
2.43.0


From ea3458e6a6927e1ec2ded7e1359dab8e15730165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:40 +0000
Subject: [PATCH 07/15] fix: extending a Slice exposed the remains of earlier
 values

---
 src/Slice.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Slice.h b/src/Slice.h
index 8b52514..feadf1c 100644
--- a/src/Slice.h
+++ b/src/Slice.h
@@ -119,7 +119,11 @@ public:
             m_hi = m_lo;
             return *this;
         }
-        if (hi > count()) m_data->resize(m_lo + hi);
+        if (hi > count()) {
+            if (m_lo + hi > m_data->size()) m_data->resize(m_lo + hi);
+            // The new elements are T{}, whatever was there before
+            std::fill(m_data->begin() + m_hi, m_data->begin() + (m_lo + hi), T{});
+        }
         m_lo = m_lo + lo;
         m_hi = m_lo - lo + hi;
 
-- 
2.43.0


From 7bde4ca4d14e714a75d028f082d60d2eb35c8a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 08/15] fix: reading one negative number from several threads
 raced on its cached index

---
 src/BigIntegerImpl.cpp | 27 +++++++++++++--------------
 src/BigIntegerImpl.h   | 38 +++++++++++++++++++++++++++++++-------
 2 files changed, 44 insertions(+), 21 deletions(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 1aca459..74b9a5a 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -474,7 +474,7 @@ BigIntegerImpl & BigIntegerImpl::assign(BigIntegerImpl && other) {
     m_mag = std::move(other.m_mag);
 
     other.m_flags = BNFlag::INVALID;
-    other.m_firstNotZeroU32IndexLazy = 0;
+    other.m_firstNotZeroU32IndexLazy.reset();
     return *this;
 }
 
@@ -1664,21 +1664,22 @@ void BigIntegerImpl::modAssignAndQuotientByU32(std::uint32_t u32, BigIntegerImpl
 }
 
 void BigIntegerImpl::beginWrite() {
-    // 擦除所有的懒求值标志
-    detail::eraseBits(m_flags, BNFlag::LAZY_CALCU_FLAGS);
+    // 擦除所有的懒求值缓存
+    m_firstNotZeroU32IndexLazy.reset();
 }
 
 SizeType BigIntegerImpl::getFirstNonZeroU32Index() const {
 
     // 如果求过且没被修改过直接返回
-    if (flagsContains(BNFlag::FIRST_NZ_U32_INDEX_CALCUED))
-        return m_firstNotZeroU32IndexLazy;
+    SizeType index = 0;
+    if (m_firstNotZeroU32IndexLazy.get(index)) return index;
 
-    // 重新求值并设置标志位
+    // 重新求值并缓存
     auto iter = std::find_if(m_mag.begin(), m_mag.end(), [] (std::uint32_t e) { return e != 0; });
-    
-    detail::setBits(m_flags, BNFlag::FIRST_NZ_U32_INDEX_CALCUED);
-    return m_firstNotZeroU32IndexLazy = (iter - m_mag.begin());
+
+    index = iter - m_mag.begin();
+    m_firstNotZeroU32IndexLazy.set(index);
+    return index;
 }
 
 void BigIntegerImpl::setFlagsToPositive() {
@@ -1708,23 +1709,21 @@ bool BigIntegerImpl::hasSameSigFlag(const BigIntegerImpl & other) const {
 void BigIntegerImpl::beZero() {
     m_mag = Slice<std::uint32_t>();
     m_flags = BNFlag::ZERO;
-    m_firstNotZeroU32IndexLazy = 0;
+    m_firstNotZeroU32IndexLazy.reset();
 }
 
 void BigIntegerImpl::beOne() {
     m_mag = Slice<std::uint32_t>();
     m_flags = BNFlag::POSITIVE;
     m_mag.append(0x1);
-    m_firstNotZeroU32IndexLazy = 0;
-    detail::setBits(m_flags, BNFlag::FIRST_NZ_U32_INDEX_CALCUED);
+    m_firstNotZeroU32IndexLazy.set(0);
 }
 
 void BigIntegerImpl::beNegOne() {
     m_mag = Slice<std::uint32_t>();
     m_flags = BNFlag::NEGATIVE;
     m_mag.append(0x1);
-    m_firstNotZeroU32IndexLazy = 0;
-    detail::setBits(m_flags, BNFlag::FIRST_NZ_U32_INDEX_CALCUED);
+    m_firstNotZeroU32IndexLazy.set(0);
 }
 
 std::uint64_t BigIntegerImpl::toU64() const {
diff --git a/src/BigIntegerImpl.h b/src/BigIntegerImpl.h
index b526ec8..bd0dd0d 100644
--- a/src/BigIntegerImpl.h
+++ b/src/BigIntegerImpl.h
@@ -3,6 +3,7 @@
 
 #include "fwd.h"
 #include "Slice.h"
+#include <atomic>
 PGBN_NAMESPACE_START
 
 namespace BNFlag {
@@ -12,16 +13,39 @@ constexpr Enum ZERO = 1U; // 零标志
 constexpr Enum POSITIVE = 1U << 1U; // 正数标志
 constexpr Enum NEGATIVE = 1U << 2U; // 负数标志
 // constexpr Enum DIRTY = 1U << 3U; // 写标志 [useless]
-constexpr Enum FIRST_NZ_U32_INDEX_CALCUED = 1U << 4U; // 第一个非零U32是否被求值过标志
-
-constexpr Enum LAZY_CALCU_FLAGS = FIRST_NZ_U32_INDEX_CALCUED;
-
 }
 
 #define BNFLAG
 
 class Status;
-namespace detail { class BigIntegerImplToStringHelper; }
+namespace detail {
+
+class BigIntegerImplToStringHelper;
+
+// 懒求值缓存, 允许多个线程同时读(求值)同一个数
+class LazyIndex {
+public:
+    LazyIndex() = default;
+    LazyIndex(const LazyIndex & other) noexcept : m_val(other.m_val.load(std::memory_order_relaxed)) { }
+    LazyIndex & operator= (const LazyIndex & other) noexcept {
+        m_val.store(other.m_val.load(std::memory_order_relaxed), std::memory_order_relaxed);
+        return *this;
+    }
+
+    bool get(SizeType & index) const { // 未求值返回false
+        const SizeType val = m_val.load(std::memory_order_relaxed);
+        index = val - 1;
+        return val != 0;
+    }
+
+    void set(SizeType index) { m_val.store(index + 1, std::memory_order_relaxed); }
+    void reset() { m_val.store(0, std::memory_order_relaxed); }
+
+private:
+    std::atomic<SizeType> m_val{0}; // 0 : 未求值, 否则为下标 + 1
+};
+
+}
 
 class BigIntegerImpl {
     friend class detail::BigIntegerImplToStringHelper;
@@ -197,9 +221,9 @@ private:
 
     std::vector<BigIntegerImpl> split(SizeType n, SizeType size) const;
 private:
-    mutable Enum m_flags = BNFlag::ZERO; // flags : 约定: assign(除了copy)后flags只有符号标志位, 其他写操作或懒求值操作均是修改flags的位
+    Enum m_flags = BNFlag::ZERO; // flags : 只有符号标志位
     Slice<std::uint32_t> m_mag{}; // 绝对值二进制, 去除前导零(高位 | 大下标)
-    mutable SizeType m_firstNotZeroU32IndexLazy = 0; // 从低位开始数的第一个不为0的U32的下标
+    mutable detail::LazyIndex m_firstNotZeroU32IndexLazy; // 从低位开始数的第一个不为0的U32的下标
 };
 
 namespace detail {
-- 
2.43.0


From b704e653e60faa49963cc46a5f8868268a396bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:15 +0000
Subject: [PATCH 09/15] fix: results with leading zero digits or a stale cache
 made later results depend on a number's past

---
 src/BigIntegerImpl.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 74b9a5a..e587cda 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -493,7 +493,7 @@ BigIntegerImpl & BigIntegerImpl::assign(std::int64_t i64) {
 
     std::uint64_t u64 = i64;
 
-    int u32s = u64 < std::numeric_limits<std::uint32_t>::max() ? 1 : 2;
+    int u32s = u64 <= std::numeric_limits<std::uint32_t>::max() ? 1 : 2;
     m_mag.slice(0, u32s);
 
     std::uint32_t * p = reinterpret_cast<std::uint32_t*>(&u64);
@@ -1203,6 +1203,9 @@ void BigIntegerImpl::notBits() {
     auto & last = m_mag[len - 1];
     int leadingZeroCnt = util::clz(last);
     last = ~last & (MASK >> leadingZeroCnt);
+
+    detail::eraseZerosSuffix(m_mag); // 去除前导零
+    if (m_mag.count() == 0) beZero();
 }
 
 void BigIntegerImpl::shiftLeftAssign(std::uint64_t u64) {
@@ -1551,6 +1554,8 @@ void BigIntegerImpl::knuthDivImpl(BigIntegerImpl & q, BigIntegerImpl & r, const
     }
 
     // init result-q, result-r
+    q.beginWrite(); // free-cache
+    r.beginWrite(); // free-cache
     q.setFlagsToPositive();
     r.setFlagsToPositive();
 
-- 
2.43.0


From c8cba3d396c6922fc394f8d2c6faf21b72213a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:29 +0000
Subject: [PATCH 10/15] fix: assigning a machine integer, a text or a binary to
 a moved-from BigInteger crashed

---
 src/BigInteger.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 6ee4f47..29fc30a 100755
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -72,21 +72,23 @@ pgbn::BigInteger & pgbn::BigInteger::operator= (BigInteger && other) noexcept {
 
 // assign from other types
 pgbn::BigInteger & pgbn::BigInteger::operator= (std::int64_t i) {
-    m_pImpl->assign(i);
-    return *this;
+    return assign(i);
 }
 
 pgbn::BigInteger & pgbn::BigInteger::assign(std::int64_t i) {
+    if (!m_pImpl) m_pImpl.reset(new BigIntegerImpl{}); // moved-from
     m_pImpl->assign(i);
     return *this;
 }
 
 pgbn::BigInteger & pgbn::BigInteger::assign(const StringArg & str, int radix, bool * ok) {
+    if (!m_pImpl) m_pImpl.reset(new BigIntegerImpl{}); // moved-from
     m_pImpl->fromString(str, radix, ok);
     return *this;
 }
 
 pgbn::BigInteger & pgbn::BigInteger::fromBinary(const void * bin, SizeType len, bool little) {
+    if (!m_pImpl) m_pImpl.reset(new BigIntegerImpl{}); // moved-from
     m_pImpl->assign(bin, len, little);
     return *this;
 }
-- 
2.43.0


From 5179a886ddc8956574cbfbb54a24891454fb044c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:13 +0000
Subject: [PATCH 11/15] fix: running out of memory in an operation on numbers
 terminated or left a wrong value

---
 src/BigInteger.cpp     |   2 +-
 src/BigInteger.h       |   2 +-
 src/BigIntegerImpl.cpp | 120 +++++++++++++++++++++--------------------
 src/Fraction.h         |  17 +++---
 src/Slice.h            |  49 ++++++++++++-----
 src/errInfos.cpp       |   4 +-
 6 files changed, 115 insertions(+), 79 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 29fc30a..59b081f 100755
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -23,7 +23,7 @@ static inline BigInteger getU64Max() {
 } PGBN_NAMESPACE_END
 
 // default
-pgbn::BigInteger::BigInteger() noexcept : m_pImpl(new BigIntegerImpl{}) { }
+pgbn::BigInteger::BigInteger() : m_pImpl(new BigIntegerImpl{}) { }
 
 // construct from BigIntegerImpl
 pgbn::BigInteger::BigInteger(std::unique_ptr<BigIntegerImpl>&& impl) : m_pImpl(std::move(impl)) {
diff --git a/src/BigInteger.h b/src/BigInteger.h
index 5639f75..586f37a 100755
--- a/src/BigInteger.h
+++ b/src/BigInteger.h
@@ -18,7 +18,7 @@ class BigInteger {
 public:
     // constructors
     // default
-    BigInteger() noexcept;
+    BigInteger();
 
     // construct from BigIntegerImpl
     BigInteger(std::unique_ptr<BigIntegerImpl> &&impl);
diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index e587cda..309f9c4 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -4,6 +4,8 @@
 
 #include <charconv>
 #include <limits>
+#include <new>
+#include <cstdlib>
 #include <cstring>
 
 using namespace pgbn;
@@ -23,9 +25,9 @@ namespace detail {
 
 // 去除前导零
 static inline void eraseZerosSuffix(Slice<std::uint32_t> & s) {
-    auto iter = s.end() - 1;
-    while (iter >= s.begin() && *iter == 0) --iter;
-    s.slice(0, iter - s.begin() + 1);
+    SizeType cnt = s.count();
+    while (cnt > 0 && s[cnt - 1] == 0) --cnt;
+    s.slice(0, cnt);
 }
 
 // 根据flags获取符号字节
@@ -95,6 +97,7 @@ static inline void addMag(Slice<std::uint32_t> & a, const Slice<std::uint32_t> &
 
     const Slice<std::uint32_t> * temp = (maxlen == a.count()) ? &a : &b;
 
+    a.reserve(maxlen + 1); // nothing fails after this
     a.slice(0, maxlen);
 
     constexpr std::uint64_t MASK = 0xffffffff;
@@ -144,6 +147,7 @@ static inline void gradSchoolMulInplace(Slice<std::uint32_t> & a, std::uint32_t
 
     constexpr std::uint64_t MASK = 0xffffffff;
 
+    a.reserve(alen + 1); // nothing fails after this
     a.slice(0, alen);
 
     const std::uint64_t B = MASK & b;
@@ -249,6 +253,7 @@ static inline void inc(Slice<std::uint32_t> & a) {
     PGZXB_DEBUG_ASSERT_EX("the size of a must be more than 0", a.count() > 0);
 
     const SizeType alen = a.count();
+    a.reserve(alen + 1); // nothing fails after this
     SizeType i = 0;
     bool carry = true;
     while (i < alen && carry) {
@@ -488,13 +493,12 @@ BigIntegerImpl & BigIntegerImpl::assign(std::int64_t i64) {
         return *this;
     }
 
-    m_flags = i64 > 0 ? BNFlag::POSITIVE : BNFlag::NEGATIVE;
-    if (i64 < 0) i64 = -i64;
-
     std::uint64_t u64 = i64;
+    if (i64 < 0) u64 = -u64;
 
     int u32s = u64 <= std::numeric_limits<std::uint32_t>::max() ? 1 : 2;
     m_mag.slice(0, u32s);
+    m_flags = i64 > 0 ? BNFlag::POSITIVE : BNFlag::NEGATIVE;
 
     std::uint32_t * p = reinterpret_cast<std::uint32_t*>(&u64);
     if constexpr (isLittleEndian()) { // 小端机
@@ -611,37 +615,41 @@ BigIntegerImpl & BigIntegerImpl::fromString(const StringArg & str, int radix, bo
 
 BigIntegerImpl & BigIntegerImpl::assign(const void * bin, SizeType len, bool little) {
     PGZXB_DEBUG_PTR_NON_NULL_CHECK(bin);
-    beginWrite(); // free-cache
-    m_mag.cloneData(); // clone, copy on write
 
     if (len == 0) { // 为0直接为ZERO
-        m_flags = BNFlag::ZERO;
-        m_mag.slice(0, 0);
+        beZero();
         return *this;
     }
 
+    BigIntegerImpl res; // *this is assigned at the end, when nothing fails any more
+
     struct Temp { // RAII, to auto free memory
         ~Temp() { std::free(this->ptr); }
+        Byte * alloc(SizeType size) {
+            this->ptr = std::malloc(size);
+            if (this->ptr == nullptr) throw std::bad_alloc();
+            return reinterpret_cast<Byte*>(this->ptr);
+        }
         void * ptr = nullptr;
     };
 
     // 设置正负标志位并去除前导符号位
     if (little) {
-        m_flags = reinterpret_cast<const std::int8_t *>(bin)[len - 1] < 0 ? BNFlag::NEGATIVE : BNFlag::POSITIVE;
+        res.m_flags = reinterpret_cast<const std::int8_t *>(bin)[len - 1] < 0 ? BNFlag::NEGATIVE : BNFlag::POSITIVE;
         
         const Byte * bytes = reinterpret_cast<const Byte *>(bin) + len - 1;
         const Byte * start = reinterpret_cast<const Byte *>(bin);
-        const Byte sign = m_flags == BNFlag::POSITIVE ? 0 : 0xff; // FIXME : replace with signByte
+        const Byte sign = res.m_flags == BNFlag::POSITIVE ? 0 : 0xff; // FIXME : replace with signByte
         
         while (bytes >= start && *bytes == sign) --bytes;
         len =  (bytes + 1) - start;
     } else {
-        m_flags = reinterpret_cast<const std::int8_t *>(bin)[0] < 0 ? BNFlag::NEGATIVE : BNFlag::POSITIVE;
+        res.m_flags = reinterpret_cast<const std::int8_t *>(bin)[0] < 0 ? BNFlag::NEGATIVE : BNFlag::POSITIVE;
         
         const Byte * bytes = reinterpret_cast<const Byte *>(bin);
         const Byte * start = reinterpret_cast<const Byte *>(bin);
         const Byte * end = reinterpret_cast<const Byte *>(bin) + len;
-        const Byte sign = m_flags == BNFlag::POSITIVE ? 0 : 0xff; // FIXME : replace with signByte
+        const Byte sign = res.m_flags == BNFlag::POSITIVE ? 0 : 0xff; // FIXME : replace with signByte
         
         while (bytes < end && *bytes == sign) ++bytes;
 
@@ -650,16 +658,16 @@ BigIntegerImpl & BigIntegerImpl::assign(const void * bin, SizeType len, bool lit
     }
     // 为0或-1(二进制补码形式全为0或全为1)
     if (len == 0) {
-        if (m_flags == BNFlag::NEGATIVE) { // -1
+        if (res.m_flags == BNFlag::NEGATIVE) { // -1
             len = 1;
-            m_mag.slice(0, 1);
-            m_mag[0] = 0x1;
+            res.m_mag.slice(0, 1);
+            res.m_mag[0] = 0x1;
         } else { // 0
             len = 0;
-            m_flags = BNFlag::ZERO;
-            m_mag.slice(0, 0);
+            res.m_flags = BNFlag::ZERO;
+            res.m_mag.slice(0, 0);
         }
-        return *this;
+        return assign(std::move(res));
     }
 
 
@@ -667,23 +675,21 @@ BigIntegerImpl & BigIntegerImpl::assign(const void * bin, SizeType len, bool lit
     SizeType u32s = len / 4 + (len % 4 != 0);
     const SizeType tlen = u32s * 4;
 
-    m_mag.slice(0, u32s);
-    std::memset(&m_mag[0], 0, tlen);
+    res.m_mag.slice(0, u32s);
+    std::memset(&res.m_mag[0], 0, tlen);
     struct Temp temp;
 
     // 根据机器和数据的大小端将数据转换成宏观小端的方式
     if constexpr (isLittleEndian()) {
         if (!little) {
-            Byte * src = reinterpret_cast<Byte*>(std::malloc(len));
+            Byte * src = temp.alloc(len);
             std::memcpy(src, bin, len);
             std::reverse(src, src + len);
-            temp.ptr = src;
             bin = src;
         }
     } else {
         if (!little) {
-            Byte * src = reinterpret_cast<Byte*>(std::malloc(tlen));
-            temp.ptr = src;
+            Byte * src = temp.alloc(tlen);
             PGZXB_DEBUG_ASSERT(tlen - len >= 0);
             PGZXB_DEBUG_PrintVar(tlen);
             PGZXB_DEBUG_PrintVar(len);
@@ -693,8 +699,7 @@ BigIntegerImpl & BigIntegerImpl::assign(const void * bin, SizeType len, bool lit
             std::reverse(src_u32, src_u32 + u32s);
             bin = src_u32;
         } else {
-            Byte * src = reinterpret_cast<Byte*>(std::malloc(tlen));
-            temp.ptr = src;
+            Byte * src = temp.alloc(tlen);
             std::memcpy(src, bin, len);
             std::memset(src + len, 0, tlen - len);
             std::reverse(src, src + tlen);
@@ -708,18 +713,17 @@ BigIntegerImpl & BigIntegerImpl::assign(const void * bin, SizeType len, bool lit
     /* 自此, 宏观上bin和m_mag都是小端 */ 
 
     // 若是负数则需补码转真值
-    if (m_flags == BNFlag::NEGATIVE) {
+    if (res.m_flags == BNFlag::NEGATIVE) {
         if (temp.ptr == nullptr) {
-            temp.ptr = reinterpret_cast<Byte*>(std::malloc(len));
-            std::memcpy(temp.ptr, bin, len);
+            std::memcpy(temp.alloc(len), bin, len);
         }
         Byte * bytes = reinterpret_cast<Byte*>(temp.ptr);
         SizeType i = 0;
         for (; i < len && bytes[i] == 0; ++i);
 
         if (i == len) { // - pow2
-            m_mag.append(1);
-            return *this;
+            res.m_mag.append(1);
+            return assign(std::move(res));
         }          
 
         bytes[i] = -bytes[i];
@@ -727,12 +731,12 @@ BigIntegerImpl & BigIntegerImpl::assign(const void * bin, SizeType len, bool lit
         bin = bytes;
     }
 
-    std::memcpy(&m_mag[0], bin, len);
+    std::memcpy(&res.m_mag[0], bin, len);
     
-    detail::eraseZerosSuffix(m_mag); // 去除前导零
-    if (m_mag.count() == 0) beZero();
+    detail::eraseZerosSuffix(res.m_mag); // 去除前导零
+    if (res.m_mag.count() == 0) res.beZero();
 
-    return *this;
+    return assign(std::move(res));
 }
 
 void BigIntegerImpl::swap(BigIntegerImpl & other) noexcept {
@@ -1040,26 +1044,25 @@ void BigIntegerImpl::mulAssign(const BigIntegerImpl & other) {
 
     // 规模较小直接采用小学生算法
     if (alen < KARATSUBA_THRESHOLD || blen < KARATSUBA_THRESHOLD) {
-        // 设置符号位
-        if (hasSameSigFlag(other)) setFlagsToPositive();
-        else setFlagsToNegative();
-        
+        const bool positive = hasSameSigFlag(other);
+
         // 计算
         if (other.m_mag.count() == 1) {
             m_mag.cloneData();
             detail::gradSchoolMulInplace(m_mag, other.m_mag[0]);
-            return;
-        }
-        if (m_mag.count() == 1) {
-            std::uint32_t temp = m_mag[0];
-            m_mag = other.m_mag;
-            m_mag.cloneData();
-            detail::gradSchoolMulInplace(m_mag, temp);
-            return;
+        } else if (m_mag.count() == 1) {
+            Slice<std::uint32_t> res = other.m_mag;
+            res.cloneData();
+            detail::gradSchoolMulInplace(res, m_mag[0]);
+            m_mag = std::move(res);
+        } else {
+            m_mag = detail::gradeSchoolMul(m_mag, other.m_mag);
+            detail::eraseZerosSuffix(m_mag); // 去除前导零
         }
 
-        m_mag = detail::gradeSchoolMul(m_mag, other.m_mag);
-        detail::eraseZerosSuffix(m_mag); // 去除前导零
+        // 设置符号位, 计算失败(内存不足)时不变
+        if (positive) setFlagsToPositive();
+        else setFlagsToNegative();
         return;
     } else if (true) { // 规模中等采用Karatsuba算法
         BigIntegerImpl res;
@@ -1250,13 +1253,14 @@ void BigIntegerImpl::shiftRightAssign(std::uint64_t u64) {
 
         beginWrite(); // free-cache // FIXME : can be better
         m_mag.cloneData(); // clone-data
+        m_mag.reserve(m_mag.count() + 1); // nothing fails after this
 
         detail::shrMag(m_mag, u64);
 
         if (m_mag.count() == 0) {
             if (lostOne) { // lostOne隐含了flagsContains(BNFlag::NEGATIVE)
                 PGZXB_DEBUG_ASSERT(flagsContains(BNFlag::NEGATIVE));
-                beNegOne();
+                m_mag.append(0x1); // -1
             } else beZero();
         } else if (lostOne) detail::inc(m_mag);
 
@@ -1712,22 +1716,24 @@ bool BigIntegerImpl::hasSameSigFlag(const BigIntegerImpl & other) const {
 }
 
 void BigIntegerImpl::beZero() {
-    m_mag = Slice<std::uint32_t>();
+    m_mag.slice(0, 0);
     m_flags = BNFlag::ZERO;
     m_firstNotZeroU32IndexLazy.reset();
 }
 
 void BigIntegerImpl::beOne() {
-    m_mag = Slice<std::uint32_t>();
+    Slice<std::uint32_t> one;
+    one.append(0x1);
+    m_mag = std::move(one);
     m_flags = BNFlag::POSITIVE;
-    m_mag.append(0x1);
     m_firstNotZeroU32IndexLazy.set(0);
 }
 
 void BigIntegerImpl::beNegOne() {
-    m_mag = Slice<std::uint32_t>();
+    Slice<std::uint32_t> one;
+    one.append(0x1);
+    m_mag = std::move(one);
     m_flags = BNFlag::NEGATIVE;
-    m_mag.append(0x1);
     m_firstNotZeroU32IndexLazy.set(0);
 }
 
diff --git a/src/Fraction.h b/src/Fraction.h
index cfad1c6..4f35cbf 100644
--- a/src/Fraction.h
+++ b/src/Fraction.h
@@ -35,8 +35,10 @@ public:
     }
 
     void setNum(const BigInteger &num) {
-        m_num = num;
-        fix();
+        Fraction result = *this;
+        result.m_num = num;
+        result.fix();
+        *this = std::move(result);
     }
 
     void setDen(const BigInteger &den, bool *ok = nullptr) {
@@ -45,10 +47,12 @@ public:
             PGBN_GetGlobalStatus() = ErrCode::DIVBY0;
             return;
         }
-        m_den = den;
+        Fraction result = *this;
+        result.m_den = den;
         if (ok) *ok = true;
         PGBN_GetGlobalStatus() = ErrCode::SUCCESS;
-        fix();
+        result.fix();
+        *this = std::move(result);
     }
 
     const BigInteger &getNum() const {
@@ -103,8 +107,9 @@ private:
     void fix() {
         PGZXB_DEBUG_ASSERT(m_den != 0);
         auto g = algo::gcd(m_num.absoluted(), m_den.absoluted());
-        m_num /= g;
-        m_den /= g;
+        BigInteger num = m_num / g;
+        m_den /= g; // nothing fails after this
+        m_num = std::move(num);
     }
 private:
     BigInteger m_num; // numerator
diff --git a/src/Slice.h b/src/Slice.h
index feadf1c..828ae3a 100644
--- a/src/Slice.h
+++ b/src/Slice.h
@@ -46,21 +46,19 @@ public:
           m_lo(other.m_lo),
           m_hi(other.m_hi) {
 
-        other.m_data.reset(new Vec(DEFAULT_PRE_SPACE * 2));
-        other.m_lo = DEFAULT_PRE_SPACE;
-        other.m_hi = DEFAULT_PRE_SPACE;
+        other.m_lo = other.m_hi = DEFAULT_PRE_SPACE; // empty, without data
     }
 
     Slice & operator= (const Slice &) = default;
 
     Slice & operator= (Slice && other) noexcept {
+        if (this == &other) return *this;
+
         m_data = std::move(other.m_data);
         m_lo = other.m_lo;
         m_hi = other.m_hi;
 
-        other.m_data.reset(new Vec(DEFAULT_PRE_SPACE * 2));
-        other.m_lo = DEFAULT_PRE_SPACE;
-        other.m_hi = DEFAULT_PRE_SPACE;
+        other.m_lo = other.m_hi = DEFAULT_PRE_SPACE; // empty, without data
 
         return *this;
     }
@@ -73,7 +71,7 @@ public:
     }
 
     Slice & cloneData() {
-        if (!m_data) return *this;
+        if (!m_data) return ensureData();
         if (m_data.use_count() == 1) {
             // The last other owner may have been another thread: what it read, it read before we write
             std::atomic_thread_fence(std::memory_order_acquire);
@@ -90,7 +88,16 @@ public:
         return *this;
     }
 
+    // make room for n elements, then appending up to n elements does not fail
+    Slice & reserve(SizeType n) {
+        ensureData();
+        m_data->reserve(m_lo + n);
+
+        return *this;
+    }
+
     Slice & prepend(const T & data) {
+        ensureData();
         if (m_lo > 0) {
             (*m_data)[--m_lo] = data;
         } else {
@@ -102,6 +109,7 @@ public:
     }
 
     Slice & append(const T & data) {
+        ensureData();
         if (m_hi < m_data->size()) {
             (*m_data)[m_hi] = data;
         } else {
@@ -120,6 +128,7 @@ public:
             return *this;
         }
         if (hi > count()) {
+            ensureData();
             if (m_lo + hi > m_data->size()) m_data->resize(m_lo + hi);
             // The new elements are T{}, whatever was there before
             std::fill(m_data->begin() + m_hi, m_data->begin() + (m_lo + hi), T{});
@@ -131,6 +140,7 @@ public:
     }
 
     Slice & preExtend(SizeType n, const T & value = T{}) {
+        ensureData();
         if (m_lo >= n) m_lo = m_lo - n;
         else {
             SizeType exlen = n - m_lo + DEFAULT_PRE_SPACE;
@@ -167,26 +177,41 @@ public:
     }
 
     iterator begin() {
-        return m_data->begin() + m_lo;
+        return data().begin() + m_lo;
     }
 
     iterator end() {
-        return m_data->begin() + m_hi;
+        return data().begin() + m_hi;
     }
 
     const_iterator begin() const {
-        return m_data->begin() + m_lo;
+        return data().cbegin() + m_lo;
     }
 
     const_iterator end() const {
-        return m_data->begin() + m_hi;
+        return data().cbegin() + m_hi;
     }
 
     SizeType count() const { return m_hi - m_lo; }
     bool hasSameBaseData(const Slice & other) const { return m_data == other.m_data; }
 
 private:
-    std::shared_ptr<Vec> m_data;
+    Slice & ensureData() { // moved-from
+        if (!m_data) {
+            m_data.reset(new Vec(DEFAULT_PRE_SPACE * 2));
+            m_lo = m_hi = DEFAULT_PRE_SPACE;
+        }
+
+        return *this;
+    }
+
+    Vec & data() const {
+        if (m_data) return *m_data;
+        static Vec s_none(DEFAULT_PRE_SPACE * 2); // stands for the data of a moved-from Slice
+        return s_none;
+    }
+
+    std::shared_ptr<Vec> m_data; // nullptr if moved-from
     SizeType m_lo = 0, m_hi = 0; // [lo, hi)
 };
 
diff --git a/src/errInfos.cpp b/src/errInfos.cpp
index 24c02c7..16d19d4 100644
--- a/src/errInfos.cpp
+++ b/src/errInfos.cpp
@@ -22,8 +22,8 @@ static void processStatusExit(pg::Enum code, const char * info) {
     exit(code);
 }
 
-static void debugPrint(pg::Enum code, const char * info) {
-    std::fprintf(stderr, "%s", pgfmt::format("[Error][{0}]{1}\n", code, info).c_str());
+static void debugPrint(pg::Enum code, const char * info) { // called by noexcept functions
+    printErrInfo(code, info);
 }
 
 }
-- 
2.43.0


From fbac4db8e4a19e04077a57f551e08175f4463893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:33 +0000
Subject: [PATCH 12/15] fix: the builtin status codes were registered anew by
 every thread (data race, lost user registrations)

---
 src/Status.cpp | 43 ++++++++++++++++++++++---------------------
 src/Status.h   |  4 +++-
 src/errInfos.h |  2 +-
 3 files changed, 26 insertions(+), 23 deletions(-)

diff --git a/src/Status.cpp b/src/Status.cpp
index b94f570..c0b65ba 100644
--- a/src/Status.cpp
+++ b/src/Status.cpp
@@ -6,30 +6,31 @@
 
 using namespace pgbn;
 
-static bool pgbn_reg() {
-    for (SizeType i = 0; i < errInfoCount; ++i) {
-        auto & errInfo = errInfos[i];
-        Status::registe(
-            errInfo.code,
-            errInfo.info,
-            errInfo.callback, errInfo.code, errInfo.info
-        );
-    }
-    return errInfoCount % 2 == 0;
+// registry of all status codes, shared by all threads
+Status::Registry & Status::registry() {
+    static Registry s_mp = [] {
+        Registry mp;
+        for (SizeType i = 0; i < errInfoCount; ++i) {
+            auto & errInfo = errInfos[i];
+            mp[errInfo.code] = std::make_tuple(
+                std::string(errInfo.info), Callback(std::bind(errInfo.callback, errInfo.code, errInfo.info))
+            );
+        }
+        return mp;
+    }();
+
+    return s_mp;
 }
 
-// static member
-std::unordered_map<Enum, std::tuple<std::string, Callback>> Status::s_mp;
-
 // member functions
 Status::Status(Enum no) noexcept : m_errno(no) {
-    PGZXB_DEBUG_ASSERT_EX("no not exsits", s_mp.find(no) != s_mp.end());
+    PGZXB_DEBUG_ASSERT_EX("no not exsits", find(no));
 
     callback(no);
 }
 
 Status & Status::operator= (Enum no) noexcept {
-    PGZXB_DEBUG_ASSERT_EX("no not exsits", s_mp.find(no) != s_mp.end());
+    PGZXB_DEBUG_ASSERT_EX("no not exsits", find(no));
 
     m_errno = no;
     callback(no);
@@ -52,26 +53,26 @@ void Status::setContext(const std::any & context) {
 // static functions
 Status * Status::getInstance() {
     static thread_local Status s_ins;
-    static thread_local bool h = pgbn_reg();
-    PGZXB_UNUSED(h);
+    registry(); // 注册内建错误码
 
     return &s_ins;
 }
 
 void Status::registeImpl(Enum no, const StringArg & info, Callback callback) {
-    s_mp[no] = std::make_tuple(std::string(info.data(), info.size()), callback);
+    registry()[no] = std::make_tuple(std::string(info.data(), info.size()), callback);
 }
 
 void Status::callback(Enum no) {
-    auto iter = s_mp.find(no); // no不存在的情况已被上层劫持
+    auto iter = registry().find(no); // no不存在的情况已被上层劫持
     if (!!std::get<1>(iter->second)) {
         std::get<1>(iter->second)(); // call
     }
 }
 
 bool Status::find(Enum no, std::tuple<std::string, Callback> ** t) {
-    auto iter = s_mp.find(no);
-    if (iter == s_mp.end()) {
+    auto & mp = registry();
+    auto iter = mp.find(no);
+    if (iter == mp.end()) {
         t && (*t = nullptr);
         return false;
     }
diff --git a/src/Status.h b/src/Status.h
index 9db867e..271c726 100644
--- a/src/Status.h
+++ b/src/Status.h
@@ -50,7 +50,9 @@ public:
     static const Callback & getCallback(Enum no); // 获取回调, 如果no不存在则返回空
     static const std::string & getInfo(Enum no);  // 获取信息, 不在在返回"<ERROR_INFO>"
 private:
-    static std::unordered_map<Enum, std::tuple<std::string, Callback>> s_mp;
+    using Registry = std::unordered_map<Enum, std::tuple<std::string, Callback>>;
+
+    static Registry & registry(); // 首次使用时注册内建错误码, 一个进程仅一次
 
     static void registeImpl(Enum no, const StringArg & info, Callback callback);
 
diff --git a/src/errInfos.h b/src/errInfos.h
index a8124a1..785a4f5 100644
--- a/src/errInfos.h
+++ b/src/errInfos.h
@@ -7,7 +7,7 @@ PGBN_NAMESPACE_START
 struct ErrInfo {
     Enum code;
     const char * info;
-    std::function<void(Enum, const char *)> callback;
+    void (*callback)(Enum, const char *); // not a std::function: initialized before any code runs
 };
 
 namespace ErrCode {
-- 
2.43.0


From 9bfc5e586b92689990483458b1bfeb9bb14edd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:33 +0000
Subject: [PATCH 13/15] fix: status code
 PARSE_INFIXEXPR_BUILTINFUNC_CALL_NOT_MATCH had no builtin message

---
 src/errInfos.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/errInfos.cpp b/src/errInfos.cpp
index 16d19d4..397d9b0 100644
--- a/src/errInfos.cpp
+++ b/src/errInfos.cpp
@@ -45,7 +45,8 @@ const ErrInfo errInfos[] = {
     { ErrCode::PARSE_INFIXEXPR_RADIX_INVALID          , "[PGBN-Status: Error]Radix Invalid(Requires 2~36)"           , pgbn::detail::debugPrint        },
     { ErrCode::PARSE_INFIXEXPR_LITERAL2NUM_ERROR      , "[PGBN-Status: Error]Parse Literal To Number Error"          , pgbn::detail::debugPrint        },
     { ErrCode::PARSE_INFIXEXPR_EQU_INVALID            , "[PGBN-Status: Error]Expected =="                            , pgbn::detail::debugPrint        },
-    { ErrCode::PARSE_INFIXEXPR_BAD_TOKEN              , "[PGBN-Status: Error]Bad Token"                              , pgbn::detail::debugPrint        }
+    { ErrCode::PARSE_INFIXEXPR_BAD_TOKEN              , "[PGBN-Status: Error]Bad Token"                              , pgbn::detail::debugPrint        },
+    { ErrCode::PARSE_INFIXEXPR_BUILTINFUNC_CALL_NOT_MATCH, "[PGBN-Status: Error]Builtin Function Call Not Match"     , pgbn::detail::debugPrint        }
 }; 
 const SizeType errInfoCount = sizeof(errInfos) / sizeof(*errInfos);
 
-- 
2.43.0


From 0e2511f9df0a587d7e10b2546d47cfeb18fe5cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:33 +0000
Subject: [PATCH 14/15] fix: the global status handle of the C interface was
 shared by all threads

---
 c/src/pgbn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/pgbn.cpp b/c/src/pgbn.cpp
index ef690e8..d46b0e3 100644
--- a/c/src/pgbn.cpp
+++ b/c/src/pgbn.cpp
@@ -19,7 +19,7 @@ struct pgbn_BigInteger_t {
 
 // pgbn::Status
 pgbn_Status_t * pgbn_Status_GetGlobalInstance() {
-    static pgbn_Status_t ins;
+    static thread_local pgbn_Status_t ins;
     ins.status = pgbn::Status::getInstance();
     return &ins; 
 }
-- 
2.43.0


From 188a9509122ee153d46a39b52b77101db12d3092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:29 +0000
Subject: [PATCH 15/15] fix: static mul and div left a half-made result when
 memory ran out

---
 src/BigIntegerImpl.cpp | 57 +++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 309f9c4..0cd75a5 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -1333,34 +1333,35 @@ void BigIntegerImpl::mul(BigIntegerImpl & res, const BigIntegerImpl & a, const B
 
     constexpr const SizeType KARATSUBA_THRESHOLD = 80;
 
-    res.beginWrite();
-
-    if (a.hasSameSigFlag(b)) res.setFlagsToPositive();
-    else res.setFlagsToNegative();
+    const bool positive = a.hasSameSigFlag(b);
 
     const SizeType alen = a.m_mag.count();
     const SizeType blen = b.m_mag.count();
 
     // 规模较小直接采用小学生算法
     if (alen < KARATSUBA_THRESHOLD || blen < KARATSUBA_THRESHOLD) {
-        if (b.m_mag.count() == 1) {
-            res.m_mag = a.m_mag;
-            res.m_mag.cloneData();
-            detail::gradSchoolMulInplace(res.m_mag, b.m_mag[0]);
-            return;
-        }
-        if (a.m_mag.count() == 1) {
-            res.m_mag = b.m_mag;
-            res.m_mag.cloneData();
-            detail::gradSchoolMulInplace(res.m_mag, a.m_mag[0]);
-            return;
+        Slice<std::uint32_t> mag = blen == 1 ? a.m_mag : b.m_mag;
+        if (blen == 1) {
+            mag.cloneData();
+            detail::gradSchoolMulInplace(mag, b.m_mag[0]);
+        } else if (alen == 1) {
+            mag.cloneData();
+            detail::gradSchoolMulInplace(mag, a.m_mag[0]);
+        } else {
+            mag = detail::gradeSchoolMul(a.m_mag, b.m_mag);
+            detail::eraseZerosSuffix(mag); // 去除前导零
         }
 
-        res.m_mag = detail::gradeSchoolMul(a.m_mag, b.m_mag);
-        detail::eraseZerosSuffix(res.m_mag); // 去除前导零
+        // 保存结果, 计算失败(内存不足)时res不变
+        res.beginWrite();
+        res.m_mag = std::move(mag);
+        if (positive) res.setFlagsToPositive();
+        else res.setFlagsToNegative();
         return;
     } else if (true) { // 规模中等采用Karatsuba算法
-        mulKaratsuba(res, a, b);
+        BigIntegerImpl temp;
+        mulKaratsuba(temp, a, b);
+        res.assign(std::move(temp));
     }
     // 规模再大采用Toom Cook-3算法
 }
@@ -1380,16 +1381,20 @@ void BigIntegerImpl::div(BigIntegerImpl & q, BigIntegerImpl & r, const BigIntege
 
     if (b.m_mag.count() == 1) { // 转发到 a/<int64_t>
 
-        q.assign(a);
-        q.divideAssignAndReminderByU32(b.m_mag[0], r);
-        if (!q.flagsContains(BNFlag::ZERO)) {
-            if (aSigNum == bSigNum) q.setFlagsToPositive();
-            else q.setFlagsToNegative();
+        BigIntegerImpl quotient(a), reminder;
+        quotient.divideAssignAndReminderByU32(b.m_mag[0], reminder);
+        if (!quotient.flagsContains(BNFlag::ZERO)) {
+            if (aSigNum == bSigNum) quotient.setFlagsToPositive();
+            else quotient.setFlagsToNegative();
         }
-        if (!r.flagsContains(BNFlag::ZERO)) {
-            if (aSigNum < 0) r.setFlagsToNegative();
-            else r.setFlagsToPositive();
+        if (!reminder.flagsContains(BNFlag::ZERO)) {
+            if (aSigNum < 0) reminder.setFlagsToNegative();
+            else reminder.setFlagsToPositive();
         }
+
+        // 保存结果, 计算失败(内存不足)时q和r不变
+        q.assign(std::move(quotient));
+        r.assign(std::move(reminder));
         return;
     }
 
-- 
2.43.0

