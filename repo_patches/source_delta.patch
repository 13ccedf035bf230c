From c80dd4ecb352710416ef09ac151b09b18b72e583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 01/43] fix: PagedStack: clear the page left behind when
 discarding down to its first element

---
 src/include/falcon/engine/pagedstack.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 168d5d1..6d85654 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -111,13 +111,11 @@ private:
       }
       if(iData == m_curBase->begin())
       {
+         m_curBase->clear();
          if (m_curBase != m_base.begin())
          {
             m_curBase--;
          }
-         else {
-            m_curBase->clear();
-         }
       }
       else {
          m_curBase->resize(iData - m_curBase->begin());
-- 
2.43.0


From 2f2c20a61e3807a6872d496a21054e4b5a523ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:44 +0000
Subject: [PATCH 02/43] fix: PagedStack: clear() also empties the first page

---
 src/include/falcon/engine/pagedstack.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 6d85654..3692b2a 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -528,6 +528,7 @@ public:
          m_curBase->clear();
          --m_curBase;
       }
+      m_curBase->clear();
    }
 
    /**
-- 
2.43.0


From a43728a1102c9623b46a87586829d12bd6bdec3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 03/43] fix: PagedStack: bottom-up iteration ends at the
 current page, not at the last allocated one

---
 src/include/falcon/engine/pagedstack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 3692b2a..7955077 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -564,8 +564,8 @@ public:
    const_iterator end() const noexcept {return const_iterator(m_base.begin(), --m_base.front().begin(), m_base.cbegin()); }
    const_iterator cend() const noexcept {return end(); }
 
-   reverse_iterator rbegin() noexcept {return reverse_iterator(m_base.begin(), m_base.front().begin(), --m_base.end());}
-   const_reverse_iterator rbegin() const noexcept {return const_reverse_iterator(m_base.cbegin(), m_base.front().cbegin(), --m_base.cend());}
+   reverse_iterator rbegin() noexcept {return reverse_iterator(m_base.begin(), m_base.front().begin(), m_curBase);}
+   const_reverse_iterator rbegin() const noexcept {return const_reverse_iterator(m_base.cbegin(), m_base.front().cbegin(), m_curBase);}
    const_reverse_iterator crbegin() const noexcept {return rbegin();}
 
    reverse_iterator rend() noexcept{return reverse_iterator(m_curBase, m_curBase->end(), m_curBase);}
-- 
2.43.0


From 470be604d46b14618a7b5c47e7341a236e0e9be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:01 +0000
Subject: [PATCH 04/43] fix: PagedStack: const synchronous iterators can be
 read

---
 src/include/falcon/engine/pagedstack.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 7955077..5320a89 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -17,6 +17,7 @@
 #include <cassert>
 #include <memory>
 #include <stdexcept>
+#include <type_traits>
 #include <falcon/engine/distribute.h>
 #include <mutex>
 
@@ -301,7 +302,7 @@ private:
    class sync_iterator_base {
    public:
 
-      void get(_TT& value) {
+      void get(typename std::remove_const<_TT>::type& value) {
          PagedStack::lock_guard guard(m_owner);
          synchronize();
          value = *m_iData;
-- 
2.43.0


From c986539e7d7306db80d57ae59630db08b5761d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:58 +0000
Subject: [PATCH 05/43] fix: PagedStack: copies of synchronous iterators are
 counted

---
 src/include/falcon/engine/pagedstack.h | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 5320a89..f93ff8c 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -144,6 +144,11 @@ private:
         }
    }
 
+   void addSyncIterator() const noexcept {
+      std::lock_guard<_Mutex> guard(m_mutex);
+      ++m_syncIterCount;
+   }
+
    void removeSyncIterator() const noexcept {
       std::lock_guard<_Mutex> guard(m_mutex);
       if(--m_syncIterCount == 0 && m_shrinkRequest) {
@@ -341,6 +346,27 @@ private:
          return *this;
       }
 
+      sync_iterator_base(const sync_iterator_base& other):
+            m_iBase(other.m_iBase),
+            m_iData(other.m_iData),
+            m_iBaseBegin(other.m_iBaseBegin),
+            m_owner(other.m_owner)
+      {
+         m_owner->addSyncIterator();
+      }
+
+      sync_iterator_base& operator=(const sync_iterator_base& other) {
+         // add first, so that a pending shrink is not triggered by self-assignment.
+         PagedStack const* old = m_owner;
+         other.m_owner->addSyncIterator();
+         m_iBase = other.m_iBase;
+         m_iData = other.m_iData;
+         m_iBaseBegin = other.m_iBaseBegin;
+         m_owner = other.m_owner;
+         old->removeSyncIterator();
+         return *this;
+      }
+
       ~sync_iterator_base() {
          m_owner->removeSyncIterator();
       }
-- 
2.43.0


From 9aceeefde4203a93ab36a1fea074e9757c8eb888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:29 +0000
Subject: [PATCH 06/43] fix: PagedStack: a synchronous iterator failing to
 resync on an empty stack keeps its position

---
 src/include/falcon/engine/pagedstack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index f93ff8c..b7e8ff7 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -404,14 +404,14 @@ private:
 
          }
          // we need to resync.
-         m_iBase = m_owner->m_curBase;
-         if ( m_iBase->size() == 0)
+         if ( m_owner->m_curBase->size() == 0)
          {
             // the stack has been emptied in the meanwhile.
             // any resync operation implies a movement or a dereference
             // hence, we're done.
             throw std::runtime_error("Empty stack while resync");
          }
+         m_iBase = m_owner->m_curBase;
          m_iData = m_iBase->end()-1;
 
          return false;
-- 
2.43.0


From 526c77eb9aef01c2c8aabb77779339aa750ef929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 07/43] fix: PagedStack: a failing push at a page boundary
 leaves the stack as it was

---
 src/include/falcon/engine/pagedstack.h | 33 ++++++++++++++++----------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index b7e8ff7..2735083 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -76,15 +76,23 @@ private:
       }
    }
 
-   void advance() {
-      if (m_curBase->size() == m_pageSize) {
-         ++m_curBase;
-         if(m_curBase == m_base.end()) {
-            m_curBase--;
+   /*
+    * Returns the page that must receive the next element.
+    *
+    * The page becomes the current one only when the element is actually there,
+    * as creating the element might fail.
+    */
+   typename base_type::iterator advance() {
+      typename base_type::iterator page = m_curBase;
+      if (page->size() == m_pageSize) {
+         ++page;
+         if(page == m_base.end()) {
             growBase();
-            m_curBase++;
+            page = m_curBase;
+            ++page;
          }
       }
+      return page;
    }
 
    template<typename... _Args>
@@ -124,14 +132,14 @@ private:
    }
 
    void internal_push(const _T& data) {
-      advance();
-      m_curBase->push_back(data);
+      typename base_type::iterator page = advance();
+      page->push_back(data);
+      m_curBase = page;
    }
 
    template<typename... _Args>
    void internal_push(const _T& data, _Args&&... __args) {
-      advance();
-      m_curBase->push_back(data);
+      internal_push(data);
       internal_push(std::forward<_Args>(__args)...);
    }
 
@@ -481,9 +489,10 @@ public:
    template<typename... _Args>
    void push_emplace(_Args&&... __args)	{
       std::lock_guard<_Mutex> guard(m_mutex);
-      advance();
+      typename base_type::iterator page = advance();
       // vector::emplace writes at the previous iterator.
-      m_curBase->emplace_back(std::forward<_Args>(__args)...);
+      page->emplace_back(std::forward<_Args>(__args)...);
+      m_curBase = page;
    }
 
    /**
-- 
2.43.0


From 120e7822426c5ce062cf9152783f8e8787916378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 08/43] fix: PagedStack: a failing page allocation leaves no
 page without room

---
 src/include/falcon/engine/pagedstack.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 2735083..464012b 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -71,7 +71,14 @@ private:
       size_t count = m_allocSize;
       while(count) {
          m_base.emplace_back(m_dataAllocator);
-         m_base.back().reserve(m_pageSize);
+         try {
+            m_base.back().reserve(m_pageSize);
+         }
+         catch(...) {
+            // don't leave pages without room around: their elements would move.
+            m_base.pop_back();
+            throw;
+         }
          --count;
       }
    }
-- 
2.43.0


From 49247313778d92e5f80f1cb7567cc39351cf171f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 09/43] fix: Futex: yield every spinCount failed attempts, not
 just once

---
 src/include/falcon/futex.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/falcon/futex.h b/src/include/falcon/futex.h
index 23708c9..818bf2b 100644
--- a/src/include/falcon/futex.h
+++ b/src/include/falcon/futex.h
@@ -56,6 +56,7 @@ public:
          isOwned = false;
 
          if(spinCount && --sc == 0) {
+            sc = spinCount;
             std::this_thread::yield();
          }
       }
-- 
2.43.0


From be833b583a68ad5496a1d2b30ec13917b34f6a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 10/43] fix: RFutex: lock() returns once the lock is taken

---
 src/include/falcon/futex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/futex.h b/src/include/falcon/futex.h
index 818bf2b..bb3dd0e 100644
--- a/src/include/falcon/futex.h
+++ b/src/include/falcon/futex.h
@@ -95,7 +95,7 @@ public:
       while(!m_owner.compare_exchange_strong(
             free, thread_id,
             std::memory_order_seq_cst,
-            std::memory_order_seq_cst) || free != thread_id) {
+            std::memory_order_seq_cst) && free != thread_id) {
          free = 0;
       }
       ++m_count;
-- 
2.43.0


From 91062e0808f3dae9063f85fb3344a3e81fbd3fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 11/43] fix: RFutex: a thread that never locked does not own
 free locks

---
 src/include/falcon/futex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/futex.h b/src/include/falcon/futex.h
index bb3dd0e..94b3e27 100644
--- a/src/include/falcon/futex.h
+++ b/src/include/falcon/futex.h
@@ -112,7 +112,7 @@ public:
    }
 
    bool isOwner() noexcept {
-      return m_owner.load(std::memory_order_seq_cst) == s_thread_id;
+      return s_thread_id != 0 && m_owner.load(std::memory_order_seq_cst) == s_thread_id;
    }
 };
 
-- 
2.43.0


From 4e520d15978ad332d4b671e36138fc0a491af47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:37 +0000
Subject: [PATCH 12/43] fix: PagedStack: copies and moves are independent
 stacks

---
 src/include/falcon/engine/pagedstack.h | 76 ++++++++++++++++++++++++++
 1 file changed, 76 insertions(+)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 464012b..56ddb1f 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -150,6 +150,35 @@ private:
       internal_push(std::forward<_Args>(__args)...);
    }
 
+   PagedStack(const PagedStack& other, const allocator_type& dataAllocator):
+      PagedStack(other.m_pageSize, other.m_allocSize, dataAllocator)
+   {
+      std::lock_guard<_Mutex> guard(other.m_mutex);
+      const_cast<PagedStack&>(other).eachPage([this](const page_type& page) {
+         for(const _T& item: page) {
+            internal_push(item);
+         }
+      });
+   }
+
+   template<typename _Visitor>
+   void eachPage(_Visitor visitor) {
+      typename base_type::iterator page = m_base.begin();
+      while(page != m_curBase) {
+         visitor(*page);
+         ++page;
+      }
+      visitor(*page);
+   }
+
+   // Both the stacks must have the same allocator.
+   void swapPages(PagedStack& other) noexcept {
+      m_base.swap(other.m_base);
+      std::swap(m_curBase, other.m_curBase);
+      std::swap(m_pageSize, other.m_pageSize);
+      std::swap(m_allocSize, other.m_allocSize);
+   }
+
    void internal_shrink_to_fit() {
         typename base_type::iterator iter = m_curBase;
         ++iter;
@@ -471,6 +500,53 @@ public:
       m_curBase = m_base.begin();
    }
 
+   PagedStack(const PagedStack& other):
+      PagedStack(other, other.m_dataAllocator)
+   {}
+
+   /**
+    * Moved-from stacks are left empty.
+    */
+   PagedStack(PagedStack&& other):
+      PagedStack(other.m_pageSize, other.m_allocSize, other.m_dataAllocator)
+   {
+      std::lock_guard<_Mutex> guard(other.m_mutex);
+      swapPages(other);
+   }
+
+   /**
+    * Assignments keep the allocator of the target stack.
+    *
+    * Synchronous iterators on the target can just be destroyed or assigned
+    * after this operation.
+    */
+   PagedStack& operator=(const PagedStack& other) {
+      if(this != &other) {
+         PagedStack copy(other, m_dataAllocator);
+         std::lock_guard<_Mutex> guard(m_mutex);
+         swapPages(copy);
+      }
+      return *this;
+   }
+
+   PagedStack& operator=(PagedStack&& other) {
+      if(this != &other) {
+         PagedStack moved(other.m_pageSize, other.m_allocSize, m_dataAllocator);
+         {
+            std::lock_guard<_Mutex> guard(other.m_mutex);
+            other.eachPage([&moved](page_type& page) {
+               for(_T& item: page) {
+                  moved.push_emplace(std::move(item));
+               }
+            });
+         }
+         other.clear();
+         std::lock_guard<_Mutex> guard(m_mutex);
+         swapPages(moved);
+      }
+      return *this;
+   }
+
    void top(const _T& value) noexcept { std::lock_guard<_Mutex> guard(m_mutex); m_curBase->back() = value; }
    const _T& top() const noexcept { std::lock_guard<_Mutex> guard(m_mutex); return m_curBase->back(); }
 
-- 
2.43.0


From e07eafa87589c44bdfd269675b37231de151212d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:43 +0000
Subject: [PATCH 13/43] fix: Item: get() compiles

---
 src/include/falcon/engine/item.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/include/falcon/engine/item.h b/src/include/falcon/engine/item.h
index ede1a6e..37406d5 100644
--- a/src/include/falcon/engine/item.h
+++ b/src/include/falcon/engine/item.h
@@ -91,8 +91,6 @@ public:
         } else {
             throw std::invalid_argument("Not a valid item type");
         }
-
-        return *static_cast<T*>(data);
     }
 
     String toString() const noexcept {return handler->toString(data);}
-- 
2.43.0


From 02b4ac12c5a8848e3c81fee54d7d2a20c93caa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:43 +0000
Subject: [PATCH 14/43] fix: ItemData: pointers are stored, not the address of
 the variable holding them

---
 src/include/falcon/engine/itemdata.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/include/falcon/engine/itemdata.h b/src/include/falcon/engine/itemdata.h
index 4eee6de..7db2e03 100644
--- a/src/include/falcon/engine/itemdata.h
+++ b/src/include/falcon/engine/itemdata.h
@@ -16,6 +16,7 @@
 #ifndef _FALCON_ITEMDATA_H_
 #define _FALCON_ITEMDATA_H_
 
+#include <type_traits>
 #include "falcon/types.h"
 
 namespace falcon {
@@ -45,6 +46,10 @@ union ItemData {
             uint64Value = value;
         } else if constexpr (std::is_same_v<T, numeric>) {
             numericValue = value;
+        } else if constexpr (std::is_null_pointer_v<T>) {
+            ptrValue = nullptr;
+        } else if constexpr (std::is_pointer_v<T>) {
+            ptrValue = const_cast<void*>(static_cast<const void*>(value));
         } else {
             ptrValue = static_cast<void*>(const_cast<T*>(&value));
         }
-- 
2.43.0


From 2a0d740e882a18add7345524adabd0b503f1b7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:43 +0000
Subject: [PATCH 15/43] fix: Item: copies own their value

---
 src/include/falcon/engine/deephandler.h |  1 +
 src/include/falcon/engine/flathandler.h |  1 +
 src/include/falcon/engine/handler.h     |  2 ++
 src/include/falcon/engine/item.h        | 15 +++++++++++++++
 4 files changed, 19 insertions(+)

diff --git a/src/include/falcon/engine/deephandler.h b/src/include/falcon/engine/deephandler.h
index 0efe981..ce05a56 100644
--- a/src/include/falcon/engine/deephandler.h
+++ b/src/include/falcon/engine/deephandler.h
@@ -26,6 +26,7 @@ struct DeepHandler: public Handler {
 
     ItemData allocate() const override {return new T;}
     void destroy(ItemData data) const noexcept override { delete reinterpret_cast<T *>(data.ptrValue);}
+    ItemData clone(ItemData data) const override { return new T(*reinterpret_cast<T *>(data.ptrValue)); }
 
     bool isFlat() const noexcept override { return false; }
     bool isCopyFlat() const noexcept override { return false; }
diff --git a/src/include/falcon/engine/flathandler.h b/src/include/falcon/engine/flathandler.h
index 8e379f0..1a9eb96 100644
--- a/src/include/falcon/engine/flathandler.h
+++ b/src/include/falcon/engine/flathandler.h
@@ -24,6 +24,7 @@ struct FlatHandler: public Handler {
 
     ItemData allocate() const override { return ItemData(false); }
     void destroy(ItemData) const noexcept override {}
+    ItemData clone(ItemData data) const override { return data; }
     
     bool isFlat() const noexcept override{ return true; }
     bool isCopyFlat() const noexcept override{ return true; }
diff --git a/src/include/falcon/engine/handler.h b/src/include/falcon/engine/handler.h
index df54df1..45bb145 100644
--- a/src/include/falcon/engine/handler.h
+++ b/src/include/falcon/engine/handler.h
@@ -31,6 +31,8 @@ struct Handler {
 
     virtual ItemData allocate() const =0;
     virtual void destroy(ItemData data) const noexcept =0;
+    /** Creates a copy of the data, owned by the caller. */
+    virtual ItemData clone(ItemData data) const =0;
 
     virtual String typeName() const noexcept = 0;
     virtual String toString(ItemData data) const noexcept = 0;
diff --git a/src/include/falcon/engine/item.h b/src/include/falcon/engine/item.h
index 37406d5..f204de5 100644
--- a/src/include/falcon/engine/item.h
+++ b/src/include/falcon/engine/item.h
@@ -16,6 +16,8 @@
 #ifndef _FALCON_ITEM_H_
 #define _FALCON_ITEM_H_
 
+#include <stdexcept>
+#include <utility>
 #include "falcon/types.h"
 #include "falcon/engine/handlerfactory.h"
 
@@ -69,6 +71,19 @@ public:
         }
     }
 
+    Item(const Item& other) : data(other.handler->clone(other.data)), handler(other.handler) {}
+
+    Item(Item&& other) noexcept : data(other.data), handler(other.handler) {
+        other.data = ItemData(nullptr);
+        other.handler = &HandlerFactory::nilHandler;
+    }
+
+    Item& operator=(Item other) noexcept {
+        std::swap(data, other.data);
+        std::swap(handler, other.handler);
+        return *this;
+    }
+
     ~Item() {
         handler->destroy(data);
     }
-- 
2.43.0


From dd3e1fbbe948a8ea93c0493a6a33f0a56a842c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:43 +0000
Subject: [PATCH 16/43] fix: StringHandler: converting text that is not a
 number doesn't terminate the program

---
 src/include/falcon/engine/stringhandler.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/falcon/engine/stringhandler.h b/src/include/falcon/engine/stringhandler.h
index 4116e84..ce14705 100644
--- a/src/include/falcon/engine/stringhandler.h
+++ b/src/include/falcon/engine/stringhandler.h
@@ -15,6 +15,7 @@
 #ifndef _FALCON_STRINGHANDLER_H_
 #define _FALCON_STRINGHANDLER_H_
 
+#include <cstdlib>
 #include "falcon/engine/deepflatcopyhandler.h"
 
 
@@ -27,7 +28,7 @@ struct StringHandler: public DeepFlatCopyHandler<String> {
     String toString(ItemData data) const noexcept override { return *reinterpret_cast<String *>(data.ptrValue); }
 
     bool toBool(ItemData data) const noexcept override { return !reinterpret_cast<String *>(data.ptrValue)->empty(); }
-    int64 toInt(ItemData data) const noexcept override { return std::stoll(*reinterpret_cast<String *>(data.ptrValue)); }
+    int64 toInt(ItemData data) const noexcept override { return std::strtoll(reinterpret_cast<String *>(data.ptrValue)->c_str(), nullptr, 10); }
 };
 
 }
-- 
2.43.0


From a7fdcb3094658bb16e988ee19b40286a447b456a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 17/43] fix: Code: each object owns the whole of its text

---
 src/engine/code.cpp              | 32 ++++++++++++++++++++++++++------
 src/include/falcon/engine/code.h |  4 +++-
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/engine/code.cpp b/src/engine/code.cpp
index 823a381..2d52540 100644
--- a/src/engine/code.cpp
+++ b/src/engine/code.cpp
@@ -19,30 +19,50 @@
 namespace falcon {
 
 Code::Code(const std::string& source, int line) noexcept :
-		m_source(source), m_line(line), m_data(new char[1000])
+		m_source(source), m_line(line), m_data(nullptr)
 {
-	std::copy(m_source.data(), m_source.data() + m_source.size(), m_data);
-	m_data[m_source.size()] = 0;
+	allocate();
 }
 
 Code::Code(const Code& other) noexcept:
-		m_source(other.m_source), m_line(other.m_line), m_data(other.m_data)
-{}
+		m_source(other.m_source), m_line(other.m_line), m_data(nullptr)
+{
+	allocate();
+}
 
 Code::Code(Code&& other) noexcept:
 		m_source(std::move(other.m_source)),
 		m_line(other.m_line), m_data(other.m_data)
 {
+	other.m_source.clear();
 	other.m_data = nullptr;
 }
 
+Code& Code::operator=(const Code& other) noexcept
+{
+	if(this != &other) {
+		m_source = other.m_source;
+		m_line = other.m_line;
+		delete[] m_data;
+		allocate();
+	}
+	return *this;
+}
+
 Code::~Code()
 {
 	delete[] m_data;
 }
 
+void Code::allocate() noexcept
+{
+	m_data = new char[m_source.size() + 1];
+	std::copy(m_source.data(), m_source.data() + m_source.size(), m_data);
+	m_data[m_source.size()] = 0;
+}
+
 std::string Code::toString() const noexcept {
-	return std::string(m_data);
+	return m_data == nullptr ? std::string() : std::string(m_data, m_source.size());
 }
 
 }
diff --git a/src/include/falcon/engine/code.h b/src/include/falcon/engine/code.h
index 11042cf..8eda2d5 100644
--- a/src/include/falcon/engine/code.h
+++ b/src/include/falcon/engine/code.h
@@ -24,7 +24,7 @@ public:
 	Code(const std::string& source="", int m_line=0) noexcept;
 	Code(const Code& other) noexcept;
 	Code(Code&& other) noexcept;
-	Code& operator=(const Code& other) = default;
+	Code& operator=(const Code& other) noexcept;
 	~Code();
 
 	std::string toString() const noexcept;
@@ -32,6 +32,8 @@ private:
 	std::string m_source;
 	int m_line;
 	char *m_data; // TODO
+
+	void allocate() noexcept;
 };
 }
 
-- 
2.43.0


From c77c83321706cb0a96332dcd73a3a6fbd9edb4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:04 +0000
Subject: [PATCH 18/43] fix: LogSystem: the service can be restarted

The termination flag was never initialised and never reset by start().
---
 src/engine/logsystem.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index f3e3cc7..d1f4622 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -24,7 +24,8 @@ LogSystem::LogSystem(bool startNow):
 		m_unpooled(0),
 		m_destroyed(0),
 		m_maxMsgQueueSize(0),
-		m_msgReceived(0)
+		m_msgReceived(0),
+		m_isTerminated(false)
 {
 	// prepare the pool
 	for (int i = 0; i < MESSAGE_POOL_THRESHOLD; ++i) {
@@ -56,25 +57,28 @@ LogSystem::~LogSystem()
 void LogSystem::start() {
 	std::lock_guard<std::mutex> guard(m_mtxThread);
 	if(m_logThread == 0) {
+		{
+			std::lock_guard<std::mutex> guardMsg(m_mtxMessage);
+			m_isTerminated = false;
+		}
 		m_logThread = new std::thread(&LogSystem::loggingThread, this);
 	}
 }
 
 
 void LogSystem::stop() noexcept {
+	// The termination request and the join are one step with respect to start().
+	std::lock_guard<std::mutex> guard(m_mtxThread);
+	if(m_logThread == 0) {
+		return;
+	}
+
 	// send a killer message
 	m_mtxMessage.lock();
 	m_isTerminated = true;
 	m_mtxMessage.unlock();
 	m_cvLogs.notify_all();
 
-	// now
-	std::thread* the_thread = 0;
-	std::lock_guard<std::mutex> guard(m_mtxThread);
-	if(m_logThread == 0) {
-		return;
-	}
-
 	// we join in a lock, but this stop() should hardly be called more than once per program.
 	m_logThread->join();
 	delete m_logThread;
-- 
2.43.0


From 80ba5f1d543646f15e973b544b3243bafd87ffb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:04 +0000
Subject: [PATCH 19/43] fix: LogSystem: reusing a pooled record doesn't leak
 its previous content

---
 src/engine/logsystem.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index d1f4622..040bc16 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -93,7 +93,13 @@ void LogSystem::log( const std::string& file, int line, LEVEL level, const std::
 		return;
 	}
 
-	Message* msg = new(allocateMsg()) Message(file, line, level, cat, message);
+	// Overwrite the previous content of the record, if it comes from the pool.
+	Message* msg = allocateMsg();
+	msg->m_file = file;
+	msg->m_line = line;
+	msg->m_level = level;
+	msg->m_category = cat;
+	msg->m_message = message;
 	log(msg);
 }
 
-- 
2.43.0


From b3094c9d3eb1f98dcd78f37907f7074f50efd38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:04 +0000
Subject: [PATCH 20/43] fix: LogSystem: category filtering doesn't write on the
 standard output

---
 src/engine/logsystem.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index 040bc16..9c715bd 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -215,7 +215,6 @@ bool LogSystem::Listener::checkCategory(const std::string& cat) const noexcept
 	  if(m_category == "") {
 		  return true;
 	  }
-	  std::cout << "Category filtering: " << cat <<" vs. "<< m_category << ": " << std::regex_match(cat, m_catRegex)<<  '\n';
 	  return std::regex_match(cat, m_catRegex);
   }
 
-- 
2.43.0


From 1a8349088c332f974726a739c19a9e7203947393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:04 +0000
Subject: [PATCH 21/43] fix: LogSystem: detached listeners receive nothing more

---
 src/engine/logsystem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index 9c715bd..90fa5ce 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -199,7 +199,8 @@ void LogSystem::sendMessageToListeners(Message* msg) noexcept
 {
 	m_msgReceived++;
 	for(auto listener: m_activeListeners) {
-		if(listener->isEnabled()
+		if(!listener->isDetached()
+				&& listener->isEnabled()
 				&& listener->level() >= msg->m_level
 				&& listener->checkCategory(msg->m_category))
 		{
-- 
2.43.0


From b6c674ab6e48ca8a020acd2ab69910a7c681435d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:04 +0000
Subject: [PATCH 22/43] fix: LogSystem: diagnostics can be read while messages
 are being logged

---
 src/engine/logsystem.cpp       | 18 ++++++++++--------
 src/include/falcon/logsystem.h |  5 +++--
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index 90fa5ce..aad3bbf 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -252,11 +252,13 @@ void LogSystem::disposeMsg(Message* msg) noexcept
 
 void LogSystem::cleanupTerminatedListeners()
 {
-	m_activeListeners.erase(
-			std::remove_if(m_activeListeners.begin(), m_activeListeners.end(),
-					[](auto& listener) { return listener->isDetached(); }),
-			m_activeListeners.end());
-
+	// The listeners are released out of the lock, their destructors may use us.
+	ListenerList removed;
+	std::lock_guard<std::mutex> guard(m_mtxListeners);
+	auto pos = std::stable_partition(m_activeListeners.begin(), m_activeListeners.end(),
+			[](const auto& listener) { return !listener->isDetached(); });
+	std::move(pos, m_activeListeners.end(), std::back_inserter(removed));
+	m_activeListeners.erase(pos, m_activeListeners.end());
 }
 
 
@@ -264,9 +266,6 @@ void LogSystem::getDiags(LogSystem::Diags& diags) noexcept
 {
 	diags.m_msgsCreated = m_unpooled;
 	diags.m_msgsDiscarded = m_destroyed;
-	diags.m_activeListeners = m_activeListeners.size();
-	diags.m_enabledListeners = std::count_if(m_activeListeners.begin(), m_activeListeners.end(),
-				[](const auto& l){return l->isEnabled();});
 	diags.m_msgReceived = m_msgReceived;
 
 	{
@@ -280,6 +279,9 @@ void LogSystem::getDiags(LogSystem::Diags& diags) noexcept
 	{
 		std::lock_guard<std::mutex> guard(m_mtxListeners);
 		diags.m_pendingListeners = m_pendingListeners.size();
+		diags.m_activeListeners = m_activeListeners.size();
+		diags.m_enabledListeners = std::count_if(m_activeListeners.begin(), m_activeListeners.end(),
+					[](const auto& l){return l->isEnabled();});
 	}
 }
 
diff --git a/src/include/falcon/logsystem.h b/src/include/falcon/logsystem.h
index 235bb9a..e09dec7 100644
--- a/src/include/falcon/logsystem.h
+++ b/src/include/falcon/logsystem.h
@@ -267,7 +267,7 @@ private:
    std::atomic<size_t> m_unpooled;
    std::atomic<size_t> m_destroyed;
    size_t m_maxMsgQueueSize;
-   size_t m_msgReceived;
+   std::atomic<size_t> m_msgReceived;
 
 
    using MessageQueue = std::deque<Message*>;
@@ -287,7 +287,8 @@ private:
    std::thread* m_logThread;
    mutable std::mutex m_mtxThread;
 
-   // Mutex controlling adding listeners.
+   // Mutex controlling changes in the listener lists.
+   // The active list is changed by the log thread only, which reads it without locking.
    mutable std::mutex m_mtxListeners;
 };
 
-- 
2.43.0


From 27f6211cbdfc12b9f57f8022b287b8ecde3f804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:46 +0000
Subject: [PATCH 23/43] fix: LogStreamListener: the line doesn't depend on the
 stream's formatting state nor changes it

---
 src/engine/logstream.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/engine/logstream.cpp b/src/engine/logstream.cpp
index 6db856a..73e7b7a 100644
--- a/src/engine/logstream.cpp
+++ b/src/engine/logstream.cpp
@@ -17,6 +17,8 @@
 
 #include <iostream>
 #include <iomanip>
+#include <locale>
+#include <sstream>
 
 namespace falcon {
 
@@ -35,10 +37,10 @@ void LogStreamListener::onMessage( const falcon::LogSystem::Message& msg )
 		file =  msg.m_file;
 	}
 
-	// This method is not really meant to be used by multiple threads,
-	// but this lock prevents changing the underlying stream mid-output.
-	std::lock_guard<std::mutex> guard(m_mtxStream);
-	std::ostream& out = *m_pout;
+	// The line is composed apart, so that its layout doesn't depend on the
+	// formatting state of the target stream (nor changes it).
+	std::ostringstream out;
+	out.imbue(std::locale::classic());
 
 	// TODO: use a format to print
 	out
@@ -61,9 +63,15 @@ void LogStreamListener::onMessage( const falcon::LogSystem::Message& msg )
 	}
 	out << file << ':' << msg.m_line;
 	out << " " << msg.m_message << "\n";
+	const std::string& line = out.str();
+
+	// This method is not really meant to be used by multiple threads,
+	// but this lock prevents changing the underlying stream mid-output.
+	std::lock_guard<std::mutex> guard(m_mtxStream);
+	m_pout->write(line.data(), line.size());
 
 	// TODO: add a flag to do this optionally
-	out.flush();
+	m_pout->flush();
 }
 
 }
-- 
2.43.0


From fd0801316f4f952884c48311d21739d47d3aea14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:46 +0000
Subject: [PATCH 24/43] fix: LogStreamListener: listeners of different systems
 don't share the broken down time

---
 src/engine/logstream.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/engine/logstream.cpp b/src/engine/logstream.cpp
index 73e7b7a..3a0735c 100644
--- a/src/engine/logstream.cpp
+++ b/src/engine/logstream.cpp
@@ -15,6 +15,8 @@
 
 #include <falcon/logstream.h>
 
+#include <chrono>
+#include <ctime>
 #include <iostream>
 #include <iomanip>
 #include <locale>
@@ -26,7 +28,13 @@ void LogStreamListener::onMessage( const falcon::LogSystem::Message& msg )
 {
 	auto now = std::chrono::system_clock::now();
 	time_t tt = std::chrono::system_clock::to_time_t(now);
-	tm local_tm = *localtime(&tt);
+	tm local_tm;
+#ifdef FALCON_SYSTEM_WIN
+	localtime_s(&local_tm, &tt);
+#else
+	tzset();
+	localtime_r(&tt, &local_tm);
+#endif
 
 	size_t fpos = msg.m_file.rfind(FALCON_DIR_SEP_CHR);
 	std::string file;
-- 
2.43.0


From be64673f75c18ff8d413e8b2349291ce8c8c63bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:53 +0000
Subject: [PATCH 25/43] fix: Logger: logger.h can be included by more than one
 source file

---
 src/include/falcon/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index f565360..1ae380c 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -399,7 +399,7 @@ const Logger::AutoEnd& operator << (const Logger::AutoEnd& aes, T&& arg)
     return aes;
 }
 
-const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::category_manipulator&& cat)
+inline const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::category_manipulator&& cat)
 {
     if(aes.doLog()) {
     	aes.obj().setTempCategory(cat.m_cat);
-- 
2.43.0


From 5e14927111b3a2e5416d7def13fb64f2bedd0120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:53 +0000
Subject: [PATCH 26/43] fix: Logger: LOG_CATEGORY takes effect whatever the
 compile-time and run-time levels

---
 src/include/falcon/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index 1ae380c..d7fa055 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -408,7 +408,7 @@ inline const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::ca
 }
 
 #define LOGGER (::falcon::Logger::instance())
-#define LOG_CATEGORY(__CAT) if(FALCON_MIN_LOG_LEVEL >= LOGGER.level()){LOGGER.setCategory(__CAT);}
+#define LOG_CATEGORY(__CAT) LOGGER.setCategory(__CAT)
 
 #define LOG(__LVL) (::falcon::Logger::AutoEnd(LOGGER, __FILE__, __LINE__, __LVL))
 #define LOG_CRIT LOG(::falcon::LLCRIT)
-- 
2.43.0


From 908cf7ed24649f580e17c75ebe81c1b02963a62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:53 +0000
Subject: [PATCH 27/43] fix: Logger: the level of LOG_BLOCK can be any
 expression

---
 src/include/falcon/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index d7fa055..5e422d9 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -421,7 +421,7 @@ inline const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::ca
 
 #define LOG_BLOCK(lvl) \
 	for( ::falcon::Logger::BlockEnd __ender(LOGGER, __FILE__, __LINE__, lvl); \
-		FALCON_MIN_LOG_LEVEL >= lvl && LOGGER.level() >= lvl && __ender; \
+		FALCON_MIN_LOG_LEVEL >= (lvl) && LOGGER.level() >= (lvl) && __ender; \
 		__ender.complete() )
 
 #define LOG_BLOCK_CRIT LOG_BLOCK(::falcon::LLCRIT)
-- 
2.43.0


From 6c81612c1238e2ae2359fb74d0a80292edd6fe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:53 +0000
Subject: [PATCH 28/43] fix: Logger: each statement and block composes a
 message of its own

Nested statements, formatting manipulators and blocks left early don't affect
the messages of other statements.
---
 src/include/falcon/logger.h | 40 +++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index 5e422d9..91db2eb 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -20,7 +20,9 @@
 #include <falcon/logstream.h>
 #include <falcon/logproxy.h>
 #include <falcon/singleton.h>
+#include <memory>
 #include <sstream>
+#include <utility>
 
 /** Compile-time log filter */
 #ifndef FALCON_MIN_LOG_LEVEL
@@ -301,17 +303,45 @@ public:
 	void categoryFilter(const std::string& line, LOGLEVEL l=LLTRACE);
 	void clearFilter();
 
+private:
+	/* Puts aside the message this thread might be already composing, for as long as it lives. */
+	class Composition
+	{
+	public:
+		Composition() { swap(); }
+		~Composition() { swap(); }
+		Composition(const Composition&) = delete;
+		Composition& operator=(const Composition&) = delete;
+
+	private:
+		std::ostringstream m_composer;
+		std::string m_tempCategory;
+		std::string m_msgFile;
+		int m_msgLine{0};
+		LOGLEVEL m_msgLevel{LLTRACE};
+
+		void swap() {
+			m_composer.swap(Logger::m_composer);
+			m_tempCategory.swap(Logger::m_tempCategory);
+			m_msgFile.swap(Logger::m_msgFile);
+			std::swap(m_msgLine, Logger::m_msgLine);
+			std::swap(m_msgLevel, Logger::m_msgLevel);
+		}
+	};
+
+public:
 	class AutoEnd
 	{
 	private:
 	    Logger* m_obj;
-	    std::string m_category;
+	    std::unique_ptr<Composition> m_composition;
 
 	public:
 	    explicit AutoEnd (Logger& obj, const std::string& file, int line, LOGLEVEL lvl):
 			m_obj(nullptr)
 	    {
 	    	if(FALCON_MIN_LOG_LEVEL >= lvl && obj.level() >= lvl) {
+	    		m_composition = std::make_unique<Composition>();
 	    		obj.setFile(file);
 	    		obj.setLine(line);
 	    		obj.setLevel(lvl);
@@ -328,19 +358,21 @@ public:
 	{
 	private:
 	    Logger* m_obj;
+	    std::unique_ptr<Composition> m_composition;
 
 	public:
 	    explicit BlockEnd (Logger& obj, const std::string& file, int line, LOGLEVEL lvl):
 			m_obj(nullptr)
 	    {
 	    	if(FALCON_MIN_LOG_LEVEL >= lvl && obj.level() >= lvl) {
+	    		m_composition = std::make_unique<Composition>();
 	    		obj.setFile(file);
 	    		obj.setLine(line);
 	    		obj.setLevel(lvl);
 	    		m_obj = &obj;
 	    	}
 	    }
-	    void complete() {m_obj->commit(); m_obj = nullptr;}
+	    void complete() {m_obj->commit(); m_composition.reset(); m_obj = nullptr;}
 	    operator bool() const noexcept {return m_obj != nullptr;}
 	};
 
@@ -384,8 +416,8 @@ private:
 	static thread_local LOGLEVEL m_msgLevel;
 
 	void readyStream() noexcept {
-		m_composer.clear();
-		m_composer.str("");
+		// Drop the formatting state too.
+		m_composer = std::ostringstream();
 	}
 };
 
-- 
2.43.0


From 20c3baa95af5398ed4421296d2dde60f30dd5729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:53 +0000
Subject: [PATCH 29/43] fix: Logger: the category filter leaves the default
 output alone and can be replaced and cleared at will

---
 src/engine/logger.cpp       | 25 +++++++++++++++++++------
 src/include/falcon/logger.h |  1 +
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/engine/logger.cpp b/src/engine/logger.cpp
index 3c8e365..a0f30e7 100644
--- a/src/engine/logger.cpp
+++ b/src/engine/logger.cpp
@@ -32,23 +32,36 @@ Logger::Logger()
 
 
 void Logger::categoryFilter(const std::string& category, LOGLEVEL l) {
-	if (m_proxy.get()) {
-		m_proxy->detach();
-	}
+	// This throws in case of invalid filters: do it before changing anything.
+	auto proxy = std::make_shared<LogProxyListener>(m_dflt);
+	proxy->category(category);
+	proxy->level(l);
+
+	// Replacing a filter, the logger goes back to the state it was in before it first.
+	clearFilter();
+
+	// The default listener must not see what is let through for the filter only.
 	m_proxyBaseLevel = level();
+	m_dfltBaseLevel = m_dflt->level();
+	if(m_dfltBaseLevel > m_proxyBaseLevel) {
+		m_dflt->level(m_proxyBaseLevel);
+	}
 	if(l > m_proxyBaseLevel) {
 		level(l);
 	}
-	m_proxy = std::make_shared<LogProxyListener>(m_dflt);
-	m_proxy->category(category);
-	m_proxy->level(l);
+	m_proxy = proxy;
 	addListener(m_proxy);
 }
 
 
 void Logger::clearFilter() {
+	if(!m_proxy) {
+		return;
+	}
 	m_proxy->detach();
+	m_proxy.reset();
 	level(m_proxyBaseLevel);
+	m_dflt->level(m_dfltBaseLevel);
 }
 
 }
diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index 91db2eb..a052528 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -407,6 +407,7 @@ private:
 	std::shared_ptr<LogStreamListener> m_dflt;
 	std::shared_ptr<LogProxyListener> m_proxy;
 	LOGLEVEL m_proxyBaseLevel{LLTRACE};
+	LOGLEVEL m_dfltBaseLevel{LLTRACE};
 
 	static thread_local std::ostringstream m_composer;
 	static thread_local std::string m_category;
-- 
2.43.0


From 7c08924d567cd5af278a1cc7441c6a71668a66aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:58 +0000
Subject: [PATCH 30/43] fix: Logger: a message can start with a string

---
 src/include/falcon/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index a052528..3e1af1a 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -385,7 +385,7 @@ public:
 
 
 	struct category_manipulator {
-		category_manipulator(const std::string& cat):
+		explicit category_manipulator(const std::string& cat):
 			m_cat{cat}
 		{}
 		std::string m_cat;
-- 
2.43.0


From a592fa8da06483e9a3fb0f1c2758923bc8a0e358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 31/43] fix: FUT: tests are torn down even if they throw, and
 their time is their body's only

---
 src/fut/testcase.cpp | 51 ++++++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index d76bb4c..5c28ec2 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -206,30 +206,53 @@ void TestCase::endTest(bool capture)
    }
 }
 
+namespace {
+/* To be called while handling an exception. */
+std::string caughtDesc()
+{
+   try {
+      throw;
+   }
+   catch(std::exception& e) {
+      return e.what();
+   }
+   catch(...) {
+      return "Unknown error caught by falcon::testing framework";
+   }
+}
+}
+
 void TestCase::run()
 {
+   p->status = NONE;
+   p->lapse = TimeLapse();
+
    try {
-      p->status = NONE;
       SetUp();
 
+      // Whatever happens in the test, what was set up is to be torn down.
       p->lapse.markBegin();
-      test();
-      p->lapse.markEnd();
-
-      if(p->status == NONE) {
-         p->status = p->errCapture.str().empty() ? SUCCESS : OUT_ON_ERROR_STREAM;
+      try {
+         test();
+         p->lapse.markEnd();
       }
+      catch(...) {
+         p->lapse.markEnd();
+         p->status = ERROR;
+         p->failDesc = caughtDesc();
+      }
+
       TearDown();
    }
-   catch(std::exception& e) {
-      p->lapse.markEnd();
-      p->status = ERROR;
-      p->failDesc = e.what();
-   }
    catch(...) {
-      p->lapse.markEnd();
-      p->status = ERROR;
-      p->failDesc = "Unknown error caught by falcon::testing framework";
+      if(p->status != ERROR) {
+         p->status = ERROR;
+         p->failDesc = caughtDesc();
+      }
+   }
+
+   if(p->status == NONE) {
+      p->status = p->errCapture.str().empty() ? SUCCESS : OUT_ON_ERROR_STREAM;
    }
 }
 
-- 
2.43.0


From 5323be7df32afb51f6aa512d9a3a97809848a35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 32/43] fix: FUT: each execution of a test starts with clean
 captures and failure records

---
 src/fut/testcase.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index 5c28ec2..13ccf01 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -42,7 +42,7 @@ public:
    std::streambuf *errbuf;
 
    std::string failDesc;
-   int failLine;
+   int failLine{0};
    std::string failFile;
 
    TimeLapse lapse;
@@ -183,6 +183,15 @@ void TestCase::destroy()
 
 void TestCase::beginTest(bool capture)
 {
+   // forget about previous executions
+   p->outCapture.str("");
+   p->errCapture.str("");
+   p->outCaptureStr.clear();
+   p->errCaptureStr.clear();
+   p->failDesc.clear();
+   p->failFile.clear();
+   p->failLine = 0;
+
    // saving the standard buffers
    if (capture) {
       p->outbuf = std::cout.rdbuf();
-- 
2.43.0


From 4e721fa389a2d9b0d5710f311dfe9aa0ecac8481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 33/43] fix: FUT: the report lists executed tests only

---
 src/fut/unittest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index c9424cd..0d16f4b 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -224,7 +224,7 @@ void UnitTest::report()
       if (p->status != 0) {
          bool first = true;
          for(auto tcase: p->tests ) {
-            if (!hasPassed(tcase))
+            if (tcase->status() != TestCase::NONE && !hasPassed(tcase))
             {
                if(first) {
                   std::cout << "\n======================================================================"
-- 
2.43.0


From 2ebe82976385a619ee02ba6cbad0b5230e51b29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 34/43] fix: FUT: the XML report is well formed whatever the
 names and the failures

---
 src/fut/unittest.cpp | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index 0d16f4b..59b2854 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -44,6 +44,28 @@ public:
    std::vector<TestCase*> tests;
    TimeLapse lapse;
 };
+
+/* Text that can appear in XML elements and attributes, and is read back as it is. */
+std::string xmlText(const std::string& text)
+{
+   std::ostringstream out;
+   for(char chr: text) {
+      switch(chr) {
+      case '&': out << "&amp;"; break;
+      case '<': out << "&lt;"; break;
+      case '>': out << "&gt;"; break;
+      case '"': out << "&quot;"; break;
+      case '\n': out << "&#10;"; break;
+      case '\r': out << "&#13;"; break;
+      case '\t': out << "&#9;"; break;
+      default:
+         // XML has no way to represent other control characters.
+         out << (static_cast<unsigned char>(chr) < 0x20 ? '?' : chr);
+         break;
+      }
+   }
+   return out.str();
+}
 }
 
 class UnitTest::Private {
@@ -420,29 +442,33 @@ void UnitTest::saveToXML() const
 
    fout << "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n";
 
-   fout << "<testsuites id=\""<< p->unitTestId << "\" name=\"" << p->unitTestName
+   const std::string unitTestId = xmlText(p->unitTestId);
+   fout << "<testsuites id=\""<< unitTestId << "\" name=\"" << xmlText(p->unitTestName)
             << "\" tests=\"" << p->testsToPerofm.size() << "\" "
             << "failures=\"" << p->failedCount << "\" "
             << "time=\""<< p->lapse.elapsed() / 1000.0 << "\">\n";
    for(auto& icat: p->componentToPerform) {
       auto& component = icat.second;
 
-      fout << "<testsuite id=\"" << p->unitTestId << "." << component.name << "\" "
-           << "name=\"" << component.name << "\" "
+      const std::string componentName = xmlText(component.name);
+      fout << "<testsuite id=\"" << unitTestId << "." << componentName << "\" "
+           << "name=\"" << componentName << "\" "
            << "tests=\"" << component.tests.size() << "\" "
            << "failures=\"" << component.failures << "\" "
            << "time=\"" << component.lapse.elapsed() / 1000.0 << "\">\n";
 
       for(auto tcasep: component.tests) {
-         fout << "<testcase id=\"" << p->unitTestId << "." << component.name << "." << tcasep->caseName() << "\" "
-              << "name=\"" << tcasep->caseName() << "\" "
+         const std::string caseName = xmlText(tcasep->caseName());
+         fout << "<testcase id=\"" << unitTestId << "." << componentName << "." << caseName << "\" "
+              << "name=\"" << caseName << "\" "
               << "time=\"" << tcasep->elapsedTime() / 1000.0 << "\">\n";
 
          if(!hasPassed(tcasep)) {
-            fout << "<failure message=\"" << tcasep->failDesc() << "\" "
+            const std::string failDesc = xmlText(tcasep->failDesc());
+            fout << "<failure message=\"" << failDesc << "\" "
                  << "type=\"" << tcasep->statusDesc() << "\">\n";
-            fout << tcasep->failDesc() << "\n"
-                 << "File: " << tcasep->failFile() << "\n"
+            fout << failDesc << "\n"
+                 << "File: " << xmlText(tcasep->failFile()) << "\n"
                  << "Line: " << tcasep->failLine() << "\n";
             fout << "</failure>\n";
          }
-- 
2.43.0


From d21f359ca32da3babf7707101af8178d4c7db489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 35/43] fix: FUT: performing the tests again executes each of
 them once

---
 src/fut/unittest.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index 59b2854..2565d2d 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -81,6 +81,7 @@ public:
    std::map<std::string, TestCase*> testsByName;
    std::multimap<std::string, TestCase*> testsByComponent;
    std::map<std::string, Component> componentToPerform;
+   std::vector<TestCase*> testsSelected;
    std::vector<TestCase*> testsToPerofm;
    std::string xmlReport;
 
@@ -132,6 +133,7 @@ void UnitTest::runAllTests()
 {
    // Reorder the tests in components
    int count = 0;
+   p->componentToPerform.clear();
    for(auto tcase: p->testsToPerofm ) {
 
       auto catIter = p->componentToPerform.find(tcase->componentName());
@@ -303,10 +305,7 @@ int UnitTest::performUnitTests()
 {
    init();
    // fill the test to perform with all the tests, if none was explicitly given.
-   auto& testsToPerform = p->testsToPerofm;
-   if(testsToPerform.empty()) {
-      testsToPerform = p->tests;
-   }
+   p->testsToPerofm = p->testsSelected.empty() ? p->tests : p->testsSelected;
 
    runAllTests();
    report();
@@ -386,7 +385,7 @@ int UnitTest::parseParams(int argc, char* argv[])
             return 1;
          }
 
-         p->testsToPerofm.push_back(iter->second);
+         p->testsSelected.push_back(iter->second);
          continue;
       }
       else if (opt == "-x" && ++i < argc) {
-- 
2.43.0


From b3d1b0a5668b287398f5a085bc003492cc23dfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 36/43] fix: FUT: elapsed times are reported with millisecond
 precision

---
 src/fut/unittest.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index 2565d2d..78a34f0 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -45,6 +45,14 @@ public:
    TimeLapse lapse;
 };
 
+/* Milliseconds as seconds with three decimals, whatever the stream they are printed on. */
+std::string inSeconds(int64 msecs)
+{
+   std::ostringstream secs;
+   secs << std::fixed << std::setprecision(3) << msecs / 1000.0;
+   return secs.str();
+}
+
 /* Text that can appear in XML elements and attributes, and is read back as it is. */
 std::string xmlText(const std::string& text)
 {
@@ -270,12 +278,12 @@ void UnitTest::report()
          for(auto& itcat: p->componentToPerform) {
             auto& component = itcat.second;
             std::cout << "  Component " << component.name
-                     << " (elapsed " <<std::setprecision(3) << component.lapse.elapsed() / 1000.0 << "s) "
+                     << " (elapsed " << inSeconds(component.lapse.elapsed()) << "s) "
                      << ( component.failures == 0 ? "Passed\n" : "FAILED \n");
          }
       }
       std::cout << "Unit Test " << p->unitTestName
-         << " (elapsed " <<std::setprecision(4) << p->lapse.elapsed() / 1000.0 << "s) "
+         << " (elapsed " << inSeconds(p->lapse.elapsed()) << "s) "
          << ( p->status == 0 ? "Passed\n" : "FAILED \n");
    }
 }
@@ -445,7 +453,7 @@ void UnitTest::saveToXML() const
    fout << "<testsuites id=\""<< unitTestId << "\" name=\"" << xmlText(p->unitTestName)
             << "\" tests=\"" << p->testsToPerofm.size() << "\" "
             << "failures=\"" << p->failedCount << "\" "
-            << "time=\""<< p->lapse.elapsed() / 1000.0 << "\">\n";
+            << "time=\""<< inSeconds(p->lapse.elapsed()) << "\">\n";
    for(auto& icat: p->componentToPerform) {
       auto& component = icat.second;
 
@@ -454,13 +462,13 @@ void UnitTest::saveToXML() const
            << "name=\"" << componentName << "\" "
            << "tests=\"" << component.tests.size() << "\" "
            << "failures=\"" << component.failures << "\" "
-           << "time=\"" << component.lapse.elapsed() / 1000.0 << "\">\n";
+           << "time=\"" << inSeconds(component.lapse.elapsed()) << "\">\n";
 
       for(auto tcasep: component.tests) {
          const std::string caseName = xmlText(tcasep->caseName());
          fout << "<testcase id=\"" << unitTestId << "." << componentName << "." << caseName << "\" "
               << "name=\"" << caseName << "\" "
-              << "time=\"" << tcasep->elapsedTime() / 1000.0 << "\">\n";
+              << "time=\"" << inSeconds(tcasep->elapsedTime()) << "\">\n";
 
          if(!hasPassed(tcasep)) {
             const std::string failDesc = xmlText(tcasep->failDesc());
-- 
2.43.0


From 5aa73fa47e1f2f36d9e6db409d47c77708a762dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 37/43] fix: FUT: the formatting of the standard streams set by
 a test doesn't affect the report

---
 src/fut/testcase.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index 13ccf01..89542df 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -40,6 +40,8 @@ public:
 
    std::streambuf *outbuf;
    std::streambuf *errbuf;
+   std::ios outFormat{nullptr};
+   std::ios errFormat{nullptr};
 
    std::string failDesc;
    int failLine{0};
@@ -192,6 +194,10 @@ void TestCase::beginTest(bool capture)
    p->failFile.clear();
    p->failLine = 0;
 
+   // the formatting set by the test is not to affect what's printed next
+   p->outFormat.copyfmt(std::cout);
+   p->errFormat.copyfmt(std::cerr);
+
    // saving the standard buffers
    if (capture) {
       p->outbuf = std::cout.rdbuf();
@@ -205,6 +211,9 @@ void TestCase::beginTest(bool capture)
 
 void TestCase::endTest(bool capture)
 {
+   std::cout.copyfmt(p->outFormat);
+   std::cerr.copyfmt(p->errFormat);
+
    // When done redirect cout to its old self
    if(capture){
       std::cout.rdbuf(p->outbuf);
-- 
2.43.0


From e4d7eb59090859fd5d5b16ccc0d7e96449d223f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 38/43] fix: FUT: EXPECT_FLOAT_EQ and EXPECT_FLOAT_NE compare
 by distance any two expressions

---
 src/include/falcon/fut/fut.h | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/include/falcon/fut/fut.h b/src/include/falcon/fut/fut.h
index 2cb11ef..2ef1708 100644
--- a/src/include/falcon/fut/fut.h
+++ b/src/include/falcon/fut/fut.h
@@ -19,6 +19,7 @@
 #include <falcon/setup.h>
 #include <falcon/fut/testcase.h>
 #include <falcon/fut/unittest.h>
+#include <cmath>
 #include <sstream>
 #include <string>
 #include <stdexcept>
@@ -85,12 +86,26 @@
 		}
 
 
-#define EXPECT_FLOAT_EQ( _EXPECTED_, _ACTUAL_) \
-            FALCON_TEST_CHECK_LOGIC(static_cast<::falcon::int64>(_EXPECTED_*10000.0),\
-               ==,static_cast<::falcon::int64>(_ACTUAL_*10000.0))
-#define EXPECT_FLOAT_NE( _EXPECTED_, _ACTUAL_) \
-            FALCON_TEST_CHECK_LOGIC(static_cast<::falcon::int64>(_EXPECTED_*10000.0),\
-               !=,static_cast<::falcon::int64>(_ACTUAL_*10000.0))
+namespace falcon {
+namespace testing {
+/* Floating point values closer than one ten-thousandth are deemed equal. */
+inline bool floatEquals(double expected, double actual) {
+   // The first comparison is for infinities.
+   return expected == actual || std::fabs(expected - actual) < 0.0001;
+}
+}
+}
+
+#define FALCON_TEST_CHECK_FLOAT(_EXPECTED_,_CHECK_,_ACTUAL_) \
+		if(!( ::falcon::testing::floatEquals((_EXPECTED_), (_ACTUAL_)) _CHECK_ true )) { \
+		   std::ostringstream ss; \
+		   ss << (_ACTUAL_); \
+			this->checkFail( __FILE__, __LINE__, #_EXPECTED_ " " #_CHECK_ " " #_ACTUAL_, ss.str().c_str() ); \
+			return; \
+		}
+
+#define EXPECT_FLOAT_EQ( _EXPECTED_, _ACTUAL_) FALCON_TEST_CHECK_FLOAT(_EXPECTED_,==,_ACTUAL_)
+#define EXPECT_FLOAT_NE( _EXPECTED_, _ACTUAL_) FALCON_TEST_CHECK_FLOAT(_EXPECTED_,!=,_ACTUAL_)
 
 #define FAIL(_MESSAGE_) \
    this->checkFail( __FILE__, __LINE__, _MESSAGE_, "" );
-- 
2.43.0


From e6a63da50a39e5f44c32ed21c9f116737ebaac8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 39/43] fix: FUT: the expressions being checked can use any
 local name

---
 src/include/falcon/fut/fut.h | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/include/falcon/fut/fut.h b/src/include/falcon/fut/fut.h
index 2ef1708..7b8ca19 100644
--- a/src/include/falcon/fut/fut.h
+++ b/src/include/falcon/fut/fut.h
@@ -54,9 +54,9 @@
 
 #define FALCON_TEST_CHECK_LOGIC(_EXPECTED_,_CHECK_,_ACTUAL_) \
 		if(!( (_EXPECTED_) _CHECK_ (_ACTUAL_) )) { \
-		   std::ostringstream ss; \
-		   ss << (_ACTUAL_); \
-			this->checkFail( __FILE__, __LINE__, #_EXPECTED_ " " #_CHECK_ " " #_ACTUAL_, ss.str().c_str() ); \
+		   std::ostringstream _falcon_test_ss_; \
+		   _falcon_test_ss_ << (_ACTUAL_); \
+			this->checkFail( __FILE__, __LINE__, #_EXPECTED_ " " #_CHECK_ " " #_ACTUAL_, _falcon_test_ss_.str().c_str() ); \
 			return; \
 		}
 
@@ -71,17 +71,17 @@
 
 #define EXPECT_TRUE(_ACTUAL_) \
       if(!(_ACTUAL_)) { \
-		   std::ostringstream ss; \
-		   ss << (_ACTUAL_); \
-			this->checkFail( __FILE__, __LINE__, #_ACTUAL_ " should be true", ss.str().c_str() ); \
+		   std::ostringstream _falcon_test_ss_; \
+		   _falcon_test_ss_ << (_ACTUAL_); \
+			this->checkFail( __FILE__, __LINE__, #_ACTUAL_ " should be true", _falcon_test_ss_.str().c_str() ); \
 			return; \
 		}
 
 #define EXPECT_FALSE(_ACTUAL_) \
       if((_ACTUAL_)) { \
-		   std::ostringstream ss; \
-		   ss << (_ACTUAL_); \
-			this->checkFail( __FILE__, __LINE__, #_ACTUAL_ " should be false", ss.str().c_str() ); \
+		   std::ostringstream _falcon_test_ss_; \
+		   _falcon_test_ss_ << (_ACTUAL_); \
+			this->checkFail( __FILE__, __LINE__, #_ACTUAL_ " should be false", _falcon_test_ss_.str().c_str() ); \
 			return; \
 		}
 
@@ -98,9 +98,9 @@ inline bool floatEquals(double expected, double actual) {
 
 #define FALCON_TEST_CHECK_FLOAT(_EXPECTED_,_CHECK_,_ACTUAL_) \
 		if(!( ::falcon::testing::floatEquals((_EXPECTED_), (_ACTUAL_)) _CHECK_ true )) { \
-		   std::ostringstream ss; \
-		   ss << (_ACTUAL_); \
-			this->checkFail( __FILE__, __LINE__, #_EXPECTED_ " " #_CHECK_ " " #_ACTUAL_, ss.str().c_str() ); \
+		   std::ostringstream _falcon_test_ss_; \
+		   _falcon_test_ss_ << (_ACTUAL_); \
+			this->checkFail( __FILE__, __LINE__, #_EXPECTED_ " " #_CHECK_ " " #_ACTUAL_, _falcon_test_ss_.str().c_str() ); \
 			return; \
 		}
 
@@ -114,9 +114,9 @@ inline bool floatEquals(double expected, double actual) {
 #define EXPECT_THROW(_EXPRESSION_, _CATCH_) \
      try { \
          {_EXPRESSION_;}\
-         std::ostringstream ss; \
-         ss << "Expected exception of type " #_CATCH_ " wasn't thrown"; \
-         this->checkFail( __FILE__, __LINE__, ss.str().c_str(), "" ); \
+         std::ostringstream _falcon_test_ss_; \
+         _falcon_test_ss_ << "Expected exception of type " #_CATCH_ " wasn't thrown"; \
+         this->checkFail( __FILE__, __LINE__, _falcon_test_ss_.str().c_str(), "" ); \
      } catch(const _CATCH_&) {}
 
 
@@ -131,9 +131,9 @@ inline bool floatEquals(double expected, double actual) {
      try { \
          _EXPRESSION_; \
      } catch(const std::exception& __excpt__) { \
-        std::ostringstream ss; \
-        ss << "Exception thrown: \" " << __excpt__.what() << "\""; \
-        this->checkFail( __FILE__, __LINE__, ss.str().c_str(), "" ); \
+        std::ostringstream _falcon_test_ss_; \
+        _falcon_test_ss_ << "Exception thrown: \" " << __excpt__.what() << "\""; \
+        this->checkFail( __FILE__, __LINE__, _falcon_test_ss_.str().c_str(), "" ); \
      } \
      catch(...) { \
         this->checkFail( __FILE__, __LINE__, "Unknown exception thrown", "" ); \
-- 
2.43.0


From 5f46bf027a429a0334c04b5d466a9d83772026ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 40/43] fix: FUT: a verbosity that is not a number is an
 invalid option

---
 src/fut/unittest.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index 78a34f0..ed00041 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -379,8 +379,7 @@ int UnitTest::parseParams(int argc, char* argv[])
       else if(opt == "-v" && ++i < argc) {
          std::istringstream is(argv[i]);
          int level;
-         is >> level;
-         if(level >= SILENT && level <= REPORT_STDOUT) {
+         if((is >> level) && level >= SILENT && level <= REPORT_STDOUT) {
             setVerbosity(static_cast<t_verbosity>(level));
             continue;
          }
-- 
2.43.0


From a9d9035f006c7445d71e1b50b63d3aabbd4be6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 41/43] fix: distribute.h is self contained

---
 src/include/falcon/engine/distribute.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/include/falcon/engine/distribute.h b/src/include/falcon/engine/distribute.h
index 1522267..11c5b41 100644
--- a/src/include/falcon/engine/distribute.h
+++ b/src/include/falcon/engine/distribute.h
@@ -16,6 +16,8 @@
 #ifndef _FALCON_DISTRIBUTE_H_
 #define _FALCON_DISTRIBUTE_H_
 
+#include <utility>
+
 namespace falcon {
 
 template<typename _iterator, typename _tgt>
-- 
2.43.0


From 19f328a5887855d2677da3f773c2eecd8b84045e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 42/43] fix: FUT: the elapsed time of the run can be read

---
 src/fut/unittest.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index ed00041..66f03d9 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -422,6 +422,12 @@ int UnitTest::parseParams(int argc, char* argv[])
 }
 
 
+int64 UnitTest::elapsedTime() const
+{
+   return p->lapse.elapsed();
+}
+
+
 void UnitTest::usage() {
 	std::cout << "UnitTest command line options:\n\n"
       << "\t-c\tDo not capture stdout/stderr\n"
-- 
2.43.0


From 831a40629fa9823333711ad754325d301560f6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:40 +0000
Subject: [PATCH 43/43] fix: PagedStack: moving from a stack shared with other
 threads loses nothing

---
 src/include/falcon/engine/pagedstack.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 56ddb1f..81e3210 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -539,8 +539,10 @@ public:
                   moved.push_emplace(std::move(item));
                }
             });
+            // still locked: nothing pushed meanwhile is to be lost.
+            other.eachPage([](page_type& page) { page.clear(); });
+            other.m_curBase = other.m_base.begin();
          }
-         other.clear();
          std::lock_guard<_Mutex> guard(m_mutex);
          swapPages(moved);
       }
-- 
2.43.0

