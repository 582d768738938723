From 5567917bb57cfff6d2d593f9dc0cfa61048c1868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 01/53] fix: size the data free list for the largest permitted
 value

The data free list had one list per size up to 8192 bytes while values may be
up to 32767 bytes, so storing or releasing a larger value indexed past the end
of the array.
---
 src/drm_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drm_base.h b/src/drm_base.h
index 4deb27f..0552e3c 100644
--- a/src/drm_base.h
+++ b/src/drm_base.h
@@ -259,7 +259,7 @@ public:
                 if (index) {
                     free_lists = new FreeList(mbdir + "_ibfl", BUFFER_ALIGNMENT, NUM_BUFFER_RESERVE);
                 } else {
-                    free_lists = new FreeList(mbdir + "_dbfl", BUFFER_ALIGNMENT, NUM_BUFFER_RESERVE);
+                    free_lists = new FreeList(mbdir + "_dbfl", DATA_BUFFER_ALIGNMENT, NUM_DATA_BUFFER_RESERVE);
                 }
             }
         }
-- 
2.43.0


From d69e24cd483513681315bc32365b45c1acf4ece2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 02/53] fix: prefix iteration must not return keys shorter than
 the prefix

---
 src/iterator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iterator.cpp b/src/iterator.cpp
index c9ddd94..0b3716b 100644
--- a/src/iterator.cpp
+++ b/src/iterator.cpp
@@ -267,7 +267,8 @@ int DB::iterator::load_kvs(const std::string& curr_node_key,
                 }
             }
 
-            if (match != MATCH_NONE) {
+            // Nodes shorter than the prefix are only descended through.
+            if (match != MATCH_NONE && match_str.size() >= prefix.size()) {
                 inode = new_iterator_node(match_str, &value);
                 if (inode != NULL) {
                     rval = kv_per_node->AddToTail(inode);
-- 
2.43.0


From dde56a29c31fe5d013dd50dabd6853a4664e6ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:50 +0000
Subject: [PATCH 03/53] fix: InDB must not report internal nodes that hold no
 value

---
 src/db.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index ac47816..01713f2 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -887,10 +887,11 @@ bool DB::InDB(const char* key, int len, int& err)
         err = MBError::NOT_ALLOWED;
         return false;
     }
-    MBData data(0, CONSTS::OPTION_FIND_AND_STORE_PARENT);
-    detail::SearchEngine engine(*dict);
-    int rval = engine.find(reinterpret_cast<const uint8_t*>(key), len, data);
-    if (rval == MBError::IN_DICT) {
+    // Use the regular lookup: the parent-tracking mode also matches internal
+    // nodes that hold no value.
+    MBData data;
+    int rval = Find(key, len, data);
+    if (rval == MBError::SUCCESS) {
         return true; // found it
     } else if (rval != MBError::NOT_EXIST) {
         err = rval; // error
-- 
2.43.0


From 20997f39cc886591621c01d863cad8f33171beab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:50 +0000
Subject: [PATCH 04/53] fix: do not match past the end of the key

When the remaining key is shorter than the edge, the lookup compared the bytes
behind the key buffer and treated the key as found if they happened to match.
---
 src/detail/search_engine.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index c7e2d65..410ec39 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -7,6 +7,7 @@
 #include "detail/lf_guard.h"
 #include "dict.h"
 #include "util/prefix_cache.h"
+#include <algorithm>
 #include <cstdlib>
 #include <cstring>
 #include <time.h>
@@ -468,6 +469,11 @@ namespace detail {
 #endif
             int edge_len = edge_ptrs.len_ptr[0];
             int edge_len_m1 = edge_len - 1;
+            if (edge_len > len) {
+                // The edge is longer than what is left of the key
+                rval = MBError::NOT_EXIST;
+                break;
+            }
             rval = compareCurrEdgeTail(edge_ptrs, data, key_cursor, key_buff, edge_len, edge_len_m1);
             if (rval == MBError::READ_ERROR)
                 break;
@@ -552,6 +558,11 @@ namespace detail {
 #endif
             int edge_len = edge_ptrs.len_ptr[0];
             int edge_len_m1 = edge_len - 1;
+            if (edge_len > len) {
+                // The edge is longer than what is left of the key
+                rval = MBError::NOT_EXIST;
+                break;
+            }
             // match edge string
             if (edge_len > LOCAL_EDGE_LEN) {
                 size_t edge_str_off = Get5BInteger(edge_ptrs.ptr);
@@ -720,7 +731,9 @@ namespace detail {
             // Any divergence returns NOT_EXIST to the caller, carrying the best
             // candidate captured so far in bound_edge_ptrs.
             if (edge_label_len > 0) {
-                int label_cmp = memcmp(edge_label_ptr, key + 1, edge_label_len);
+                int label_cmp = memcmp(edge_label_ptr, key + 1, std::min(edge_label_len, len - 1));
+                if (label_cmp == 0 && edge_len > len)
+                    label_cmp = 1; // the key is a proper prefix of the edge
                 if (label_cmp != 0) {
                     // If the edge label is strictly less than the key suffix, signal
                     // that the current subtree itself is a valid lower-bound pivot.
-- 
2.43.0


From 94783f34b94b7f86b2fd5e7656c46f817723966e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:55 +0000
Subject: [PATCH 05/53] fix: longest-prefix match length must not count an
 internal node without a value

---
 src/detail/search_engine.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index 410ec39..96cb40f 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -286,8 +286,9 @@ namespace detail {
                 rval = dict.ReadDataFromNode(data, last_node_buffer);
         } else if (edge_len == len) {
             if (edge_len_m1 == 0 || memcmp(key_buff, key + 1, edge_len_m1) == 0) {
-                data.match_len = len;
                 rval = dict.ReadDataFromEdge(data, edge_ptrs);
+                if (rval == MBError::SUCCESS)
+                    data.match_len = len;
             }
         }
 
@@ -584,8 +585,9 @@ namespace detail {
             len -= edge_len;
             key_cursor += edge_len;
             if (len <= 0 || (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF)) {
-                data.match_len = key_cursor - key_base;
                 rval = dict.ReadDataFromEdge(data, edge_ptrs);
+                if (rval == MBError::SUCCESS)
+                    data.match_len = key_cursor - key_base;
                 break;
             }
 #ifdef __LOCK_FREE__
-- 
2.43.0


From 4764438e16c0d07f3fc6303bd399030fff82003e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:43 +0000
Subject: [PATCH 06/53] fix: keep the prefix cache coherent with removes,
 RemoveAll and resource collection

---
 src/dict.cpp              | 22 +++++++++++++++++++---
 src/dict.h                |  2 ++
 src/mb_rc.cpp             |  1 +
 src/util/prefix_cache.cpp | 24 ++++++++++++++++++++++++
 src/util/prefix_cache.h   |  2 ++
 5 files changed, 48 insertions(+), 3 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 0833d48..adb7a6a 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -293,6 +293,9 @@ int Dict::Add(const uint8_t* key, int len, MBData& data, bool overwrite)
     EdgePtrs edge_ptrs;
     int rval;
 
+    if (prefix_cache)
+        prefix_cache->Invalidate(key, len);
+
     rval = mm.GetRootEdge_Writer(data.options & CONSTS::OPTION_RC_MODE, key[0], edge_ptrs);
     if (rval != MBError::SUCCESS)
         return rval;
@@ -391,7 +394,8 @@ int Dict::Add(const uint8_t* key, int len, MBData& data, bool overwrite)
             header->count++;
     }
     // After a successful add, seed prefix cache at canonical 2/3-byte boundaries.
-    if (rval == MBError::SUCCESS && prefix_cache) {
+    // Buffers are still being moved while in rc mode.
+    if (rval == MBError::SUCCESS && prefix_cache && !(data.options & CONSTS::OPTION_RC_MODE)) {
         SeedCanonicalBoundariesAfterAdd(key, orig_len, /*from_add=*/true);
     }
     return rval;
@@ -437,7 +441,9 @@ void Dict::SeedCanonicalBoundariesAfterAdd(const uint8_t* key, int len, bool fro
     if (edge_len < remain) {
         if (edge_len_m1 <= 0 || memcmp(key_buff, key_cursor + 1, edge_len_m1) == 0) {
             // If 4-byte boundary falls inside this edge and prefix matches, seed a mid-edge entry.
-            if (from_add && len >= 4 && consumed < 4 && consumed + edge_len >= 4) {
+            // The label must be stored in the edge itself since an external label
+            // can be released while the entry is still in use.
+            if (from_add && edge_len <= LOCAL_EDGE_LEN && len >= 4 && consumed < 4 && consumed + edge_len >= 4) {
                 uint8_t skip = static_cast<uint8_t>(4 - consumed);
                 PrefixCacheEntry e {};
                 e.edge_offset = edge_ptrs.offset;
@@ -541,7 +547,7 @@ void Dict::SeedCanonicalBoundariesAfterAdd(const uint8_t* key, int len, bool fro
             break;
         }
         // If 4-byte boundary falls inside this edge and prefix matches, seed mid-edge entry.
-        if (from_add && len >= 4 && consumed < 4 && consumed + edge_len >= 4) {
+        if (from_add && edge_len <= LOCAL_EDGE_LEN && len >= 4 && consumed < 4 && consumed + edge_len >= 4) {
             uint8_t skip = static_cast<uint8_t>(4 - consumed);
             PrefixCacheEntry e {};
             e.edge_offset = edge_ptrs.offset;
@@ -950,6 +956,9 @@ int Dict::Remove(const uint8_t* key, int len, MBData& data)
     if (!(data.options & CONSTS::OPTION_FIND_AND_STORE_PARENT))
         return MBError::INVALID_ARG;
 
+    if (prefix_cache)
+        prefix_cache->Invalidate(key, len);
+
     int rval;
     {
         detail::SearchEngine engine(*this);
@@ -984,6 +993,7 @@ int Dict::RemoveAll()
 {
     int rval = MBError::SUCCESS;
 
+    ClearPrefixCache();
     mm.ClearMem(); // clear memory will re-initialize jemalloc
     if (options & CONSTS::OPTION_JEMALLOC) {
         mm.InitRootNode();
@@ -1374,6 +1384,12 @@ void Dict::PrintPrefixCacheStats(std::ostream& os) const
     }
 }
 
+void Dict::ClearPrefixCache() const
+{
+    if (prefix_cache)
+        prefix_cache->Clear();
+}
+
 PrefixCache* Dict::ActivePrefixCache() const
 {
     if (prefix_cache)
diff --git a/src/dict.h b/src/dict.h
index a7bdfba..66893a0 100644
--- a/src/dict.h
+++ b/src/dict.h
@@ -133,6 +133,8 @@ public:
     // Unified prefix cache (shared-memory backed): automatically enabled
     // when the DB was created with embedded cache. Readers attach if present.
     PrefixCache* ActivePrefixCache() const;
+    // Drop all cached edges, required before index or data buffers are moved
+    void ClearPrefixCache() const;
 
 private:
     // Allow internal SearchEngine to orchestrate lookups without exposing members publicly
diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index e6b2597..14f86ba 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -666,6 +666,7 @@ void ResourceCollection::Prepare(int64_t min_index_size, int64_t min_data_size)
         throw (int)MBError::RC_SKIPPED;
     }
 
+    dict->ClearPrefixCache();
     if (index_free_lists != NULL)
         index_free_lists->Empty();
     if (data_free_lists != NULL)
diff --git a/src/util/prefix_cache.cpp b/src/util/prefix_cache.cpp
index 8df7c6f..892e492 100644
--- a/src/util/prefix_cache.cpp
+++ b/src/util/prefix_cache.cpp
@@ -548,6 +548,30 @@ void PrefixCache::Clear()
     }
 }
 
+// A cached edge leads to the subtree below one prefix, so it only goes stale
+// through updates of keys with that prefix.
+void PrefixCache::Invalidate(const uint8_t* key, int len)
+{
+    uint32_t p4;
+    if (cap4 > 0 && build4(key, len, p4)) {
+        size_t idx4 = static_cast<size_t>(p4) & mask4;
+        if (tag4[idx4].load(std::memory_order_relaxed) == p4)
+            valid4[idx4].store(0, std::memory_order_release);
+    }
+    uint32_t p3;
+    if (cap3 > 0 && build3(key, len, p3)) {
+        size_t idx3 = static_cast<size_t>(p3) & mask3;
+        if (tag3[idx3].load(std::memory_order_relaxed) == p3 + 1)
+            tag3[idx3].store(0, std::memory_order_release);
+    }
+    uint16_t p2;
+    if (build2(key, len, p2)) {
+        size_t idx2 = static_cast<size_t>(p2) & mask2;
+        if (tag2[idx2].load(std::memory_order_relaxed) == static_cast<uint32_t>(p2) + 1)
+            tag2[idx2].store(0, std::memory_order_release);
+    }
+}
+
 // Count populated slots in the 4-byte table using the valid[] bitmap.
 size_t PrefixCache::Size4() const
 {
diff --git a/src/util/prefix_cache.h b/src/util/prefix_cache.h
index 520da8e..ed7aeb0 100644
--- a/src/util/prefix_cache.h
+++ b/src/util/prefix_cache.h
@@ -95,6 +95,8 @@ public:
     size_t Memory3() const;
     size_t Memory4() const;
     void Clear();
+    // Drop the entries cached for the 2/3/4-byte prefixes of the key
+    void Invalidate(const uint8_t* key, int len);
 
     // Simple counters for diagnostics (single-threaded use)
     uint64_t HitCount() const { return 0; }
-- 
2.43.0


From 63b43cef42aed3dbfbf147e6eb6324ca526d4768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:58 +0000
Subject: [PATCH 07/53] fix: keep the old value buffer until its edge refers to
 the new one

---
 src/dict.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index adb7a6a..8a52687 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -1193,14 +1193,18 @@ int Dict::ReleaseBuffer(size_t offset)
 
 int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, bool& inc_count)
 {
+    size_t old_data_off = 0;
+    bool release_old = false;
+
     if (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF) {
         inc_count = false;
         // leaf node
         mbd.data_offset = Get6BInteger(edge_ptrs.offset_ptr);
         if (!overwrite)
             return MBError::IN_DICT;
-        if (ReleaseBuffer(mbd.data_offset) != MBError::SUCCESS)
-            Logger::Log(LOG_LEVEL_WARN, "failed to release data buffer: %llu", mbd.data_offset);
+        // The old buffer must not be reused before the edge refers to the new one.
+        old_data_off = mbd.data_offset;
+        release_old = true;
         ReserveData(mbd.buff, mbd.data_len, mbd.data_offset);
         Write6BInteger(edge_ptrs.offset_ptr, mbd.data_offset);
 
@@ -1227,8 +1231,8 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, boo
             mbd.data_offset = Get6BInteger(node_buff + 2);
             if (!overwrite)
                 return MBError::IN_DICT;
-            if (ReleaseBuffer(mbd.data_offset) != MBError::SUCCESS)
-                Logger::Log(LOG_LEVEL_WARN, "failed to release data buffer %llu", mbd.data_offset);
+            old_data_off = mbd.data_offset;
+            release_old = true;
             node_buff[NODE_EDGE_KEY_FIRST] = 0;
         } else {
             // set the match flag
@@ -1253,6 +1257,9 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, boo
         header->excep_updating_status = EXCEP_STATUS_NONE;
     }
 
+    if (release_old && ReleaseBuffer(old_data_off) != MBError::SUCCESS)
+        Logger::Log(LOG_LEVEL_WARN, "failed to release data buffer: %llu", old_data_off);
+
     return MBError::SUCCESS;
 }
 
-- 
2.43.0


From 78c741e3d6134d885eae8f0859d0ba3e09877ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 08/53] fix: report allocation failures of Add and Remove as
 return codes

---
 src/db.cpp   | 12 ++++++++++--
 src/dict.cpp |  7 ++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index 01713f2..4b06524 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -1004,7 +1004,11 @@ int DB::Add(const char* key, int len, MBData& mbdata, bool overwrite)
         return MBError::NOT_INITIALIZED;
 
     if (async_writer == NULL && (options & CONSTS::ACCESS_MODE_WRITER)) {
-        rval = dict->Add(reinterpret_cast<const uint8_t*>(key), len, mbdata, overwrite);
+        try {
+            rval = dict->Add(reinterpret_cast<const uint8_t*>(key), len, mbdata, overwrite);
+        } catch (int error) {
+            rval = error;
+        }
     } else {
         AsyncWriter* awr = AsyncWriter::GetInstance();
         if (awr) {
@@ -1074,7 +1078,11 @@ int DB::Remove(const char* key, int len)
         return MBError::NOT_INITIALIZED;
 
     if (async_writer == NULL && (options & CONSTS::ACCESS_MODE_WRITER)) {
-        rval = dict->Remove(reinterpret_cast<const uint8_t*>(key), len);
+        try {
+            rval = dict->Remove(reinterpret_cast<const uint8_t*>(key), len);
+        } catch (int error) {
+            rval = error;
+        }
     } else {
         rval = dict->SHMQ_Remove(reinterpret_cast<const char*>(key), len);
     }
diff --git a/src/dict.cpp b/src/dict.cpp
index 8a52687..0eaaaa5 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -388,10 +388,11 @@ int Dict::Add(const uint8_t* key, int len, MBData& data, bool overwrite)
         if (rval == MBError::SUCCESS)
             header->rc_count++;
     } else {
-        if (rval == MBError::SUCCESS)
+        if (rval == MBError::SUCCESS) {
             header->num_update++;
-        if (inc_count)
-            header->count++;
+            if (inc_count)
+                header->count++;
+        }
     }
     // After a successful add, seed prefix cache at canonical 2/3-byte boundaries.
     // Buffers are still being moved while in rc mode.
-- 
2.43.0


From 50692d3870aab74a316ffd2fc4f6047bc351996d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:44 +0000
Subject: [PATCH 09/53] fix: recreate the jemalloc arena when a closed database
 is reopened in the same process

---
 src/rollable_file.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rollable_file.cpp b/src/rollable_file.cpp
index 41ed77c..4af6f7b 100644
--- a/src/rollable_file.cpp
+++ b/src/rollable_file.cpp
@@ -154,9 +154,16 @@ int RollableFile::OpenAndMapBlockFile(size_t block_order, bool create_file)
     bool init_jem = false;
     if (block_order == 0 && (mode & CONSTS::OPTION_JEMALLOC)) {
         // Check if jemalloc is initialized already
-        if (ResourcePool::getInstance().GetResourceByPath(path + "0") == nullptr) {
+        MmapFileIO* resource = ResourcePool::getInstance().GetResourceByPath(path + "0");
+        if (resource == nullptr) {
             // mm_meta is only initialized for the first block
             init_jem = true;
+        } else if (resource->mm_meta != nullptr && resource->mm_meta->arena_index == 0) {
+            // The arena was destroyed when the db was closed while the block file
+            // is still in the resource pool.
+            delete resource->mm_meta;
+            resource->mm_meta = nullptr;
+            init_jem = true;
         }
     }
     files[block_order] = ResourcePool::getInstance().OpenFile(path + ss.str(),
-- 
2.43.0


From 5504c94ba0852eb5271032a145617d8d303b0e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:05 +0000
Subject: [PATCH 10/53] fix: a node value stored at data offset zero must be
 found

---
 src/dict.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 0eaaaa5..af30d16 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -735,10 +735,8 @@ int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs)
 
 int Dict::ReadDataFromNode(MBData& data, const uint8_t* node_ptr) const
 {
+    // Note zero is a valid data offset in jemalloc mode.
     size_t data_off = Get6BInteger(node_ptr + 2);
-    if (data_off == 0)
-        return MBError::NOT_EXIST;
-
     data.data_offset = data_off;
 
     // Read data length first
-- 
2.43.0


From f40221a5c644ea0def00dc4ab99ff173853b05b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:10 +0000
Subject: [PATCH 11/53] fix: do not let the jemalloc arena overwrite the
 embedded prefix cache after RemoveAll

---
 src/dict.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dict.cpp b/src/dict.cpp
index af30d16..911f331 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -997,6 +997,9 @@ int Dict::RemoveAll()
     if (options & CONSTS::OPTION_JEMALLOC) {
         mm.InitRootNode();
         kv_file->ResetJemalloc();
+        // Keep the embedded prefix cache out of the new arena.
+        if (header->pfxcache_size > 0)
+            (void)kv_file->PreAlloc(GetStartDataOffset());
         for (int c = 0; c < NUM_ALPHABET; c++) {
             rval = mm.ClearRootEdge(c);
             if (rval != MBError::SUCCESS)
-- 
2.43.0


From dc28177fd4f1287aee78835049b16f2ae85aff9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:39 +0000
Subject: [PATCH 12/53] fix: drop the prefix cache before the jemalloc startup
 compaction

---
 src/mb_rc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index 14f86ba..07a6fcb 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -260,6 +260,7 @@ int ResourceCollection::StartupShrink()
     header->rc_m_index_off_pre = index_tail;
     header->rc_m_data_off_pre = data_tail;
 
+    dict->ClearPrefixCache();
     rc_type = RESOURCE_COLLECTION_TYPE_INDEX | RESOURCE_COLLECTION_TYPE_DATA;
     if (index_free_lists != NULL)
         index_free_lists->Empty();
-- 
2.43.0


From 4c23b44e8f11989c9863b82fde7c01cf93a6de9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:10 +0000
Subject: [PATCH 13/53] fix: a lock-free lookup must validate every edge it has
 followed

A reader only checked the last edge of its path (and only on some results), so
a lookup running through a node that was replaced or released concurrently could
return another key's value, an error or NOT_EXIST for a key that was present.
All edges followed are now validated, for every result, and the rc root is
checked again after the rc tree was searched.
---
 src/detail/lf_guard.h        |  57 +++++-
 src/detail/search_engine.cpp | 370 ++++++++++++-----------------------
 src/detail/search_engine.h   |  14 +-
 src/dict.cpp                 |   4 +-
 src/lock_free.cpp            |  83 ++++++++
 src/lock_free.h              |  14 ++
 6 files changed, 289 insertions(+), 253 deletions(-)

diff --git a/src/detail/lf_guard.h b/src/detail/lf_guard.h
index e543803..20476d1 100644
--- a/src/detail/lf_guard.h
+++ b/src/detail/lf_guard.h
@@ -4,25 +4,66 @@
  */
 #pragma once
 
-#ifdef __LOCK_FREE__
+#include "drm_base.h"
+#include "error.h"
+#include "integer_4b_5b.h"
 #include "lock_free.h"
 #include "mb_data.h"
 
 namespace mabain {
 
+#ifdef __LOCK_FREE__
+
+// Keeps track of all edges followed by one lookup. The lookup is valid only if
+// none of them was modified since the guard was constructed: modification of any
+// edge may move or release everything below it.
 struct ReaderLFGuard {
-    LockFree& lf;
-    MBData& data;
+    // One path (every edge holds at least one byte of the key) and all edges of a node
+    static const int MAX_VISITED = 2 * NUM_ALPHABET + 8;
+
+    const LockFree& lf;
     LockFreeData snap;
-    explicit ReaderLFGuard(LockFree& l, MBData& d)
+    LockFreePending pending;
+    int num_visited;
+    size_t visited[MAX_VISITED];
+
+    explicit ReaderLFGuard(LockFree& l)
         : lf(l)
-        , data(d)
+        , num_visited(0)
+    {
+        pending.offset = MAX_6B_OFFSET;
+        pending.counter = 0;
+        l.ReaderLockFreeStart(snap);
+    }
+
+    // Must be called for every edge before its content is used.
+    inline int visit(EdgePtrs& edge_ptrs)
+    {
+        if (num_visited >= MAX_VISITED)
+            return MBError::TRY_AGAIN;
+        if (pending.offset == MAX_6B_OFFSET)
+            lf.ReaderLoadPendingEdge(edge_ptrs, pending);
+        track(edge_ptrs.offset);
+        return stop();
+    }
+
+    inline void track(size_t edge_off) { visited[num_visited++] = edge_off; }
+
+    inline int stop() const
     {
-        lf.ReaderLockFreeStart(snap);
+        return lf.ReaderLockFreeCheck(snap, visited, num_visited, pending);
     }
-    inline int stop(size_t edge_off) { return lf.ReaderLockFreeStop(snap, edge_off, data); }
 };
 
-} // namespace mabain
+#else
+
+struct ReaderLFGuard {
+    explicit ReaderLFGuard(LockFree&) { }
+    inline int visit(EdgePtrs&) { return MBError::SUCCESS; }
+    inline void track(size_t) { }
+    inline int stop() const { return MBError::SUCCESS; }
+};
 
 #endif // __LOCK_FREE__
+
+} // namespace mabain
diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index 96cb40f..d98aeae 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -20,23 +20,22 @@ namespace detail {
         int rval;
         size_t rc_root_offset = dict.GetHeaderPtr()->rc_root_offset.load(MEMORY_ORDER_READER);
 
-        if (rc_root_offset != 0) {
+        while (rc_root_offset != 0) {
             dict.reader_rc_off = rc_root_offset;
             rval = tryFindAtRoot(rc_root_offset, key, len, data);
-            if (rval == MBError::SUCCESS) {
-                data.match_len = len;
-                return rval;
-            } else if (rval != MBError::NOT_EXIST) {
-                return rval;
-            }
-            data.options &= ~(CONSTS::OPTION_RC_MODE | CONSTS::OPTION_READ_SAVED_EDGE);
-        } else {
-            if (dict.reader_rc_off != 0) {
-                dict.reader_rc_off = 0;
-                dict.RemoveUnused(0);
-                dict.mm.RemoveUnused(0);
+            if (!rcRootChanged(rc_root_offset)) {
+                if (rval == MBError::SUCCESS) {
+                    data.match_len = len;
+                    return rval;
+                } else if (rval != MBError::NOT_EXIST) {
+                    return rval;
+                }
+                data.options &= ~(CONSTS::OPTION_RC_MODE | CONSTS::OPTION_READ_SAVED_EDGE);
+                break;
             }
         }
+        if (rc_root_offset == 0)
+            releaseRCResource();
 
         rval = tryFindAtRoot(0, key, len, data);
         if (rval == MBError::SUCCESS)
@@ -48,47 +47,37 @@ namespace detail {
     int SearchEngine::findPrefix(const uint8_t* key, int len, MBData& data)
     {
         int rval;
+        int rval_rc = MBError::NOT_EXIST;
         MBData data_rc;
         size_t rc_root_offset = dict.GetHeaderPtr()->rc_root_offset.load(MEMORY_ORDER_READER);
-        if (rc_root_offset != 0) {
+        while (rc_root_offset != 0) {
             dict.reader_rc_off = rc_root_offset;
-            rval = findPrefixInternal(rc_root_offset, key, len, data_rc);
-#ifdef __LOCK_FREE__
-            {
-                int attempts = 0;
-                while (rval == MBError::TRY_AGAIN && attempts++ < CONSTS::LOCK_FREE_RETRY_LIMIT) {
-                    nanosleep((const struct timespec[]) { { 0, 10L } }, NULL);
-                    data_rc.Clear();
-                    rval = findPrefixInternal(rc_root_offset, key, len, data_rc);
-                }
-            }
-#endif
-            if (rval != MBError::NOT_EXIST && rval != MBError::SUCCESS)
-                return rval;
-            data.options &= ~(CONSTS::OPTION_RC_MODE | CONSTS::OPTION_READ_SAVED_EDGE);
-        } else {
-            if (dict.reader_rc_off != 0) {
-                dict.reader_rc_off = 0;
-                dict.RemoveUnused(0);
-                dict.mm.RemoveUnused(0);
+            data_rc.Clear();
+            rval_rc = tryFindPrefixAtRoot(rc_root_offset, key, len, data_rc);
+            if (!rcRootChanged(rc_root_offset)) {
+                if (rval_rc != MBError::NOT_EXIST && rval_rc != MBError::SUCCESS)
+                    return rval_rc;
+                data.options &= ~(CONSTS::OPTION_RC_MODE | CONSTS::OPTION_READ_SAVED_EDGE);
+                break;
             }
+            rval_rc = MBError::NOT_EXIST;
         }
+        if (rc_root_offset == 0)
+            releaseRCResource();
 
-        rval = findPrefixInternal(0, key, len, data);
-#ifdef __LOCK_FREE__
-        {
-            int attempts = 0;
-            while (rval == MBError::TRY_AGAIN && attempts++ < CONSTS::LOCK_FREE_RETRY_LIMIT) {
-                nanosleep((const struct timespec[]) { { 0, 10L } }, NULL);
-                data.Clear();
-                rval = findPrefixInternal(0, key, len, data);
-            }
-        }
-#endif
+        rval = tryFindPrefixAtRoot(0, key, len, data);
+        if (rval != MBError::NOT_EXIST && rval != MBError::SUCCESS)
+            return rval;
 
         // Prefer the longer match: copy value and match_len when rc-path wins.
-        if (data_rc.match_len > data.match_len) {
-            data_rc.TransferValueTo(data.buff, data.data_len);
+        // If both have the same length the rc-path holds the newer value.
+        if (rval_rc == MBError::SUCCESS && (rval != MBError::SUCCESS || data_rc.match_len >= data.match_len)) {
+            if (data.Resize(data_rc.data_len) != MBError::SUCCESS)
+                return MBError::NO_MEMORY;
+            memcpy(data.buff, data_rc.buff, data_rc.data_len);
+            data.data_len = data_rc.data_len;
+            data.data_offset = data_rc.data_offset;
+            data.bucket_index = data_rc.bucket_index;
             // Preserve the longer match length from rc-path.
             data.match_len = data_rc.match_len;
             rval = MBError::SUCCESS;
@@ -96,6 +85,41 @@ namespace detail {
         return rval;
     }
 
+    // Check if the resource collection has completed since rc_root_offset was loaded.
+    // The rc tree may have been released while it was searched.
+    bool SearchEngine::rcRootChanged(size_t& rc_root_offset) const
+    {
+        std::atomic_thread_fence(MEMORY_ORDER_READER);
+        size_t curr_offset = dict.GetHeaderPtr()->rc_root_offset.load(MEMORY_ORDER_READER);
+        if (curr_offset == rc_root_offset)
+            return false;
+        rc_root_offset = curr_offset;
+        return true;
+    }
+
+    void SearchEngine::releaseRCResource()
+    {
+        if (dict.reader_rc_off != 0) {
+            dict.reader_rc_off = 0;
+            dict.RemoveUnused(0);
+            dict.mm.RemoveUnused(0);
+        }
+    }
+
+    int SearchEngine::tryFindPrefixAtRoot(size_t root_off, const uint8_t* key, int len, MBData& data)
+    {
+        int rval = findPrefixInternal(root_off, key, len, data);
+#ifdef __LOCK_FREE__
+        int attempts = 0;
+        while (rval == MBError::TRY_AGAIN && attempts++ < CONSTS::LOCK_FREE_RETRY_LIMIT) {
+            nanosleep((const struct timespec[]) { { 0, 10L } }, NULL);
+            data.Clear();
+            rval = findPrefixInternal(root_off, key, len, data);
+        }
+#endif
+        return rval;
+    }
+
     int SearchEngine::lowerBound(const uint8_t* key, int len, MBData& data, std::string* bound_key)
     {
         int rval;
@@ -206,28 +230,30 @@ namespace detail {
     }
 
     int SearchEngine::findPrefixInternal(size_t root_off, const uint8_t* key, int len, MBData& data)
+    {
+        ReaderLFGuard lf_guard(dict.lfree);
+        int rval = findPrefixGuarded(root_off, key, len, data, lf_guard);
+        // The result, including any error, counts only if nothing on the path was modified.
+        int ret = lf_guard.stop();
+        return ret == MBError::SUCCESS ? rval : ret;
+    }
+
+    int SearchEngine::findPrefixGuarded(size_t root_off, const uint8_t* key, int len, MBData& data,
+        ReaderLFGuard& lf_guard)
     {
         int rval;
         EdgePtrs& edge_ptrs = data.edge_ptrs;
-#ifdef __LOCK_FREE__
-        ReaderLFGuard lf_guard(dict.lfree, data);
-#endif
 
         rval = dict.mm.GetRootEdge(root_off, key[0], edge_ptrs);
         if (rval != MBError::SUCCESS) {
             return MBError::READ_ERROR;
         }
+        rval = lf_guard.visit(edge_ptrs);
+        if (rval != MBError::SUCCESS)
+            return rval;
 
-        if (edge_ptrs.len_ptr[0] == 0) {
-#ifdef __LOCK_FREE__
-            {
-                int _r = lf_guard.stop(edge_ptrs.offset);
-                if (_r != MBError::SUCCESS)
-                    return _r;
-            }
-#endif
+        if (edge_ptrs.len_ptr[0] == 0)
             return MBError::NOT_EXIST;
-        }
 
         const uint8_t* key_buff;
         uint8_t* node_buff = data.node_buff;
@@ -236,16 +262,8 @@ namespace detail {
         int edge_len_m1 = edge_len - 1;
         if (edge_len > LOCAL_EDGE_LEN) {
             if (dict.mm.ReadData(node_buff, edge_len_m1, Get5BInteger(edge_ptrs.ptr))
-                != edge_len_m1) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
+                != edge_len_m1)
                 return MBError::READ_ERROR;
-            }
             key_buff = node_buff;
         } else {
             key_buff = edge_ptrs.ptr;
@@ -253,35 +271,21 @@ namespace detail {
 
         rval = MBError::NOT_EXIST;
         if (edge_len < len) {
-            if (edge_len > 1 && memcmp(key_buff, key_cursor + 1, edge_len_m1) != 0) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
+            if (edge_len > 1 && memcmp(key_buff, key_cursor + 1, edge_len_m1) != 0)
                 return MBError::NOT_EXIST;
-            }
 
             len -= edge_len;
             key_cursor += edge_len;
 
             if (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
                 data.match_len = key_cursor - key;
                 return dict.ReadDataFromEdge(data, edge_ptrs);
             }
 
             uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST];
             int last_prefix_rval = MBError::NOT_EXIST;
-            rval = traversePrefixFromEdge(key, key_cursor, len, edge_ptrs, data, last_prefix_rval, last_node_buffer);
+            rval = traversePrefixFromEdge(key, key_cursor, len, edge_ptrs, data, last_prefix_rval,
+                last_node_buffer, lf_guard);
             if (rval == MBError::NOT_EXIST && last_prefix_rval != rval)
                 rval = dict.ReadDataFromNode(data, last_node_buffer);
         } else if (edge_len == len) {
@@ -292,17 +296,20 @@ namespace detail {
             }
         }
 
-#ifdef __LOCK_FREE__
-        {
-            int _r = lf_guard.stop(edge_ptrs.offset);
-            if (_r != MBError::SUCCESS)
-                return _r;
-        }
-#endif
         return rval;
     }
 
     int SearchEngine::findInternal(size_t root_off, const uint8_t* key, int len, MBData& data)
+    {
+        ReaderLFGuard lf_guard(dict.lfree);
+        int rval = findGuarded(root_off, key, len, data, lf_guard);
+        // The result, including any error, counts only if nothing on the path was modified.
+        int ret = lf_guard.stop();
+        return ret == MBError::SUCCESS ? rval : ret;
+    }
+
+    int SearchEngine::findGuarded(size_t root_off, const uint8_t* key, int len, MBData& data,
+        ReaderLFGuard& lf_guard)
     {
         EdgePtrs& edge_ptrs = data.edge_ptrs;
         int rval;
@@ -318,134 +325,59 @@ namespace detail {
         bool used_cache = use_cache ? seedFromCache(key, len, edge_ptrs, data, key_cursor, len, consumed) : false;
 
         if (!used_cache) {
-#ifdef __LOCK_FREE__
-            ReaderLFGuard lf_guard(dict.lfree, data);
-#endif
-
             rval = dict.mm.GetRootEdge(root_off, key[0], edge_ptrs);
             if (rval != MBError::SUCCESS) {
                 return MBError::READ_ERROR;
             }
-            if (edge_ptrs.len_ptr[0] == 0) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
+            rval = lf_guard.visit(edge_ptrs);
+            if (rval != MBError::SUCCESS)
+                return rval;
+            if (edge_ptrs.len_ptr[0] == 0)
                 return MBError::NOT_EXIST;
-            }
 
             int edge_len = edge_ptrs.len_ptr[0];
             int edge_len_m1 = edge_len - 1;
-            rval = MBError::NOT_EXIST;
-            if ((rval = loadEdgeKey(edge_ptrs, data, key_buff, edge_len_m1)) != MBError::SUCCESS) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
-                return MBError::READ_ERROR;
-            }
-
-            if (edge_len < len) {
-                if (!remainderMatches(key_buff, key_cursor, edge_len_m1)) {
-#ifdef __LOCK_FREE__
-                    {
-                        int _r = lf_guard.stop(edge_ptrs.offset);
-                        if (_r != MBError::SUCCESS)
-                            return _r;
-                    }
-#endif
-                    return MBError::NOT_EXIST;
-                }
-                key_cursor += edge_len;
-                consumed += edge_len;
-                len -= edge_len;
-                if (len <= 0) {
-                    return resolveMatchOrInDict(data, edge_ptrs, true);
-                }
-                if (isLeaf(edge_ptrs)) {
-#ifdef __LOCK_FREE__
-                    {
-                        int _r = lf_guard.stop(edge_ptrs.offset);
-                        if (_r != MBError::SUCCESS)
-                            return _r;
-                    }
-#endif
-                    return MBError::NOT_EXIST;
-                }
-                // Find does not update prefix cache; writer seeds during Add
-            } else if (edge_len == len) {
-                if (remainderMatches(key_buff, key_cursor, edge_len_m1)) {
-                    // Find does not update prefix cache; writer seeds during Add
-                    return resolveMatchOrInDict(data, edge_ptrs, true);
-                }
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
+            if (edge_len > len)
                 return MBError::NOT_EXIST;
-            } else {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
+            if (loadEdgeKey(edge_ptrs, data, key_buff, edge_len_m1) != MBError::SUCCESS)
+                return MBError::READ_ERROR;
+            if (!remainderMatches(key_buff, key_cursor, edge_len_m1))
                 return MBError::NOT_EXIST;
+            if (edge_len == len) {
+                // Find does not update prefix cache; writer seeds during Add
+                return resolveMatchOrInDict(data, edge_ptrs, true);
             }
 
-#ifdef __LOCK_FREE__
-            {
-                int _r = lf_guard.stop(edge_ptrs.offset);
-                if (_r != MBError::SUCCESS)
-                    return _r;
-            }
-#endif
+            key_cursor += edge_len;
+            consumed += edge_len;
+            len -= edge_len;
+            if (isLeaf(edge_ptrs))
+                return MBError::NOT_EXIST;
+            // Find does not update prefix cache; writer seeds during Add
         }
 
         if (used_cache) {
+            lf_guard.track(edge_ptrs.offset);
             if (len <= 0)
                 return resolveMatchOrInDict(data, edge_ptrs, false);
             if (isLeaf(edge_ptrs))
                 return MBError::NOT_EXIST;
         }
-        return traverseFromEdge(key_cursor, len, consumed, key, orig_len, edge_ptrs, data);
+        return traverseFromEdge(key_cursor, len, consumed, key, orig_len, edge_ptrs, data, lf_guard);
     }
 
     int SearchEngine::traverseFromEdge(const uint8_t*& key_cursor, int& len, int& consumed,
-        const uint8_t* full_key, int full_len, EdgePtrs& edge_ptrs, MBData& data)
+        const uint8_t* full_key, int full_len, EdgePtrs& edge_ptrs, MBData& data,
+        ReaderLFGuard& lf_guard)
     {
 
         const uint8_t* key_buff;
         uint8_t* node_buff = data.node_buff;
         int rval = MBError::SUCCESS;
-#ifdef __LOCK_FREE__
-        ReaderLFGuard lf_guard(dict.lfree, data);
-        size_t edge_offset_prev = edge_ptrs.offset;
-#else
-        size_t edge_offset_prev = edge_ptrs.offset;
-#endif
         int steps = 0;
         while (true) {
-            if (++steps > CONSTS::FIND_TRAVERSAL_LIMIT) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
+            if (++steps > CONSTS::FIND_TRAVERSAL_LIMIT)
                 return MBError::UNKNOWN_ERROR;
-            }
             if (data.options & CONSTS::OPTION_FIND_AND_STORE_PARENT) {
                 rval = dict.mm.NextEdge(key_cursor, edge_ptrs, node_buff, data);
             } else {
@@ -461,13 +393,9 @@ namespace detail {
             if (rval != MBError::SUCCESS)
                 break;
 
-#ifdef __LOCK_FREE__
-            {
-                int _r = lf_guard.stop(edge_offset_prev);
-                if (_r != MBError::SUCCESS)
-                    return _r;
-            }
-#endif
+            rval = lf_guard.visit(edge_ptrs);
+            if (rval != MBError::SUCCESS)
+                break;
             int edge_len = edge_ptrs.len_ptr[0];
             int edge_len_m1 = edge_len - 1;
             if (edge_len > len) {
@@ -493,48 +421,22 @@ namespace detail {
             key_cursor += edge_len;
             consumed += edge_len;
             // Find does not update prefix cache; writer seeds during Add
-#ifdef __LOCK_FREE__
-            edge_offset_prev = edge_ptrs.offset;
-#else
-            edge_offset_prev = edge_ptrs.offset;
-#endif
         }
 
-#ifdef __LOCK_FREE__
-        {
-            int _r = lf_guard.stop(edge_ptrs.offset);
-            if (_r != MBError::SUCCESS)
-                return _r;
-        }
-#endif
-
         return rval;
     }
 
     int SearchEngine::traversePrefixFromEdge(const uint8_t* key_base, const uint8_t*& key_cursor, int& len,
-        EdgePtrs& edge_ptrs, MBData& data, int& last_prefix_rval, uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST]) const
+        EdgePtrs& edge_ptrs, MBData& data, int& last_prefix_rval, uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST],
+        ReaderLFGuard& lf_guard) const
     {
         int rval;
         uint8_t* node_buff = data.node_buff;
-#ifdef __LOCK_FREE__
-        ReaderLFGuard lf_guard(dict.lfree, data);
-        size_t edge_offset_prev = edge_ptrs.offset;
-#else
-        size_t edge_offset_prev = edge_ptrs.offset;
-#endif
         const uint8_t* key_buff;
         int steps = 0;
         while (true) {
-            if (++steps > CONSTS::FIND_TRAVERSAL_LIMIT) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
+            if (++steps > CONSTS::FIND_TRAVERSAL_LIMIT)
                 return MBError::UNKNOWN_ERROR;
-            }
             // For prefix traversal we must read the node header into node_buff
             // to detect FLAG_NODE_MATCH at internal nodes. NextEdgeFast does not
             // populate node_buff and would miss recording the last matching node.
@@ -550,13 +452,9 @@ namespace detail {
             if (rval != MBError::SUCCESS)
                 break;
 
-#ifdef __LOCK_FREE__
-            {
-                int _r = lf_guard.stop(edge_offset_prev);
-                if (_r != MBError::SUCCESS)
-                    return _r;
-            }
-#endif
+            rval = lf_guard.visit(edge_ptrs);
+            if (rval != MBError::SUCCESS)
+                break;
             int edge_len = edge_ptrs.len_ptr[0];
             int edge_len_m1 = edge_len - 1;
             if (edge_len > len) {
@@ -590,18 +488,8 @@ namespace detail {
                     data.match_len = key_cursor - key_base;
                 break;
             }
-#ifdef __LOCK_FREE__
-            edge_offset_prev = edge_ptrs.offset;
-#endif
         }
 
-#ifdef __LOCK_FREE__
-        {
-            int _r = lf_guard.stop(edge_ptrs.offset);
-            if (_r != MBError::SUCCESS)
-                return _r;
-        }
-#endif
         return rval;
     }
 
diff --git a/src/detail/search_engine.h b/src/detail/search_engine.h
index 08b5e25..6147e2d 100644
--- a/src/detail/search_engine.h
+++ b/src/detail/search_engine.h
@@ -45,6 +45,10 @@ namespace detail {
         // Longest prefix match
         int findPrefix(const uint8_t* key, int len, MBData& data);
 
+        // Exact match below one root; the caller validates the guard and retries
+        int findGuarded(size_t root_off, const uint8_t* key, int len, MBData& data,
+            ReaderLFGuard& lf_guard);
+
         // Lower bound (largest entry not greater than key)
         int lowerBound(const uint8_t* key, int len, MBData& data, std::string* bound_key);
 
@@ -54,14 +58,20 @@ namespace detail {
         // Exact-find internals
         inline int tryFindAtRoot(size_t root_off, const uint8_t* key, int len, MBData& data);
         int findInternal(size_t root_off, const uint8_t* key, int len, MBData& data);
+        bool rcRootChanged(size_t& rc_root_offset) const;
+        void releaseRCResource();
         int traverseFromEdge(const uint8_t*& key_cursor, int& len, int& consumed,
-            const uint8_t* full_key, int full_len, EdgePtrs& edge_ptrs, MBData& data);
+            const uint8_t* full_key, int full_len, EdgePtrs& edge_ptrs, MBData& data,
+            ReaderLFGuard& lf_guard);
 
         // Prefix internals
+        int tryFindPrefixAtRoot(size_t root_off, const uint8_t* key, int len, MBData& data);
         int findPrefixInternal(size_t root_off, const uint8_t* key, int len, MBData& data);
+        int findPrefixGuarded(size_t root_off, const uint8_t* key, int len, MBData& data,
+            ReaderLFGuard& lf_guard);
         int traversePrefixFromEdge(const uint8_t* key_base, const uint8_t*& key_cursor, int& len,
             EdgePtrs& edge_ptrs, MBData& data, int& last_prefix_rval,
-            uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST]) const;
+            uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST], ReaderLFGuard& lf_guard) const;
 
         // Small helpers
         // Exact-match path helper: always copy edge tail into node_buff
diff --git a/src/dict.cpp b/src/dict.cpp
index 911f331..047c84d 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -1211,11 +1211,11 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, boo
         Write6BInteger(edge_ptrs.offset_ptr, mbd.data_offset);
 
         memcpy(header->excep_buff, edge_ptrs.offset_ptr, OFFSET_SIZE);
+        header->excep_updating_status = EXCEP_STATUS_ADD_DATA_OFF;
 #ifdef __LOCK_FREE__
         header->excep_lf_offset = edge_ptrs.offset;
         lfree.WriterLockFreeStart(edge_ptrs.offset);
 #endif
-        header->excep_updating_status = EXCEP_STATUS_ADD_DATA_OFF;
         mm.WriteData(edge_ptrs.offset_ptr, OFFSET_SIZE, edge_ptrs.offset + EDGE_NODE_LEADING_POS);
 #ifdef __LOCK_FREE__
         lfree.WriterLockFreeStop();
@@ -1247,11 +1247,11 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, boo
         Write6BInteger(node_buff + 2, mbd.data_offset);
 
         header->excep_offset = node_off;
+        header->excep_updating_status = EXCEP_STATUS_ADD_NODE;
 #ifdef __LOCK_FREE__
         header->excep_lf_offset = edge_ptrs.offset;
         lfree.WriterLockFreeStart(edge_ptrs.offset);
 #endif
-        header->excep_updating_status = EXCEP_STATUS_ADD_NODE;
         mm.WriteData(node_buff, NODE_EDGE_KEY_FIRST, node_off);
 #ifdef __LOCK_FREE__
         lfree.WriterLockFreeStop();
diff --git a/src/lock_free.cpp b/src/lock_free.cpp
index 0323324..ce37024 100644
--- a/src/lock_free.cpp
+++ b/src/lock_free.cpp
@@ -133,4 +133,87 @@ int LockFree::ReaderLockFreeStop(const LockFreeData& snapshot, size_t reader_off
     return MBError::SUCCESS;
 }
 
+int LockFree::ReaderLockFreeCheck(const LockFreeData& snapshot, const size_t* edge_offs,
+    int num_edge, const LockFreePending& pending) const
+{
+    // All loads of the reader must be done before the check.
+    std::atomic_thread_fence(MEMORY_ORDER_READER);
+
+    size_t curr_offset = shm_data_ptr->offset.load(MEMORY_ORDER_READER);
+    uint32_t curr_counter = shm_data_ptr->counter.load(MEMORY_ORDER_READER);
+
+    if (curr_offset != MAX_6B_OFFSET) {
+        bool is_pending = (curr_offset == pending.offset) && (curr_counter == pending.counter);
+        for (int i = 0; i < num_edge && !is_pending; i++) {
+            if (edge_offs[i] == curr_offset)
+                return MBError::TRY_AGAIN;
+        }
+    }
+
+    // Note it is expected that count_diff can overflow.
+    uint32_t count_diff = curr_counter - snapshot.counter;
+    if (count_diff == 0)
+        return MBError::SUCCESS;
+    if (count_diff >= MAX_OFFSET_CACHE)
+        return MBError::TRY_AGAIN; // Cache is overwritten. Have to retry.
+
+    for (uint32_t i = 0; i < count_diff; i++) {
+        uint32_t counter = snapshot.counter + i;
+        size_t offset = shm_data_ptr->offset_cache[counter % MAX_OFFSET_CACHE].load(MEMORY_ORDER_READER);
+        if (offset == pending.offset && counter == pending.counter)
+            continue;
+        for (int j = 0; j < num_edge; j++) {
+            if (edge_offs[j] == offset)
+                return MBError::TRY_AGAIN;
+        }
+    }
+
+    // Need to recheck the counter difference
+    count_diff = shm_data_ptr->counter.load(MEMORY_ORDER_READER) - snapshot.counter;
+    if (count_diff >= MAX_OFFSET_CACHE)
+        return MBError::TRY_AGAIN;
+
+    return MBError::SUCCESS;
+}
+
+bool LockFree::ReaderLoadPendingEdge(EdgePtrs& edge_ptrs, LockFreePending& pending) const
+{
+    uint32_t counter = shm_data_ptr->counter.load(MEMORY_ORDER_READER);
+    if (shm_data_ptr->offset.load(MEMORY_ORDER_READER) != edge_ptrs.offset)
+        return false;
+    // The writer increments the counter before it resets the offset. The update may
+    // be the one already counted if that one was for the same edge.
+    size_t prev_offset = shm_data_ptr->offset_cache[(counter - 1) % MAX_OFFSET_CACHE].load(MEMORY_ORDER_READER);
+    if (prev_offset == edge_ptrs.offset)
+        return false;
+
+    uint8_t edge_buff[EDGE_SIZE];
+    memcpy(edge_buff, edge_ptrs.edge_buff, EDGE_SIZE);
+    switch (header->excep_updating_status) {
+    case EXCEP_STATUS_ADD_EDGE:
+    case EXCEP_STATUS_REMOVE_EDGE:
+        memcpy(edge_buff, header->excep_buff, EDGE_SIZE);
+        break;
+    case EXCEP_STATUS_ADD_DATA_OFF:
+        memcpy(edge_buff + EDGE_NODE_LEADING_POS, header->excep_buff, OFFSET_SIZE);
+        break;
+    case EXCEP_STATUS_CLEAR_EDGE:
+        memset(edge_buff, 0, EDGE_SIZE);
+        break;
+    default:
+        return false;
+    }
+
+    // The buffer belongs to this update only if the writer is still working on it.
+    std::atomic_thread_fence(MEMORY_ORDER_READER);
+    if (shm_data_ptr->offset.load(MEMORY_ORDER_READER) != edge_ptrs.offset
+        || shm_data_ptr->counter.load(MEMORY_ORDER_READER) != counter)
+        return false;
+
+    memcpy(edge_ptrs.edge_buff, edge_buff, EDGE_SIZE);
+    pending.offset = edge_ptrs.offset;
+    pending.counter = counter;
+    return true;
+}
+
 }
diff --git a/src/lock_free.h b/src/lock_free.h
index 7549508..e427856 100644
--- a/src/lock_free.h
+++ b/src/lock_free.h
@@ -41,6 +41,12 @@ typedef struct _LockFreeData {
     uint32_t counter;
 } LockFreeData;
 
+// An update whose result was taken by the reader before the writer stored it
+typedef struct _LockFreePending {
+    size_t offset;
+    uint32_t counter;
+} LockFreePending;
+
 typedef struct _LockFreeShmData {
     std::atomic<uint32_t> counter;
     std::atomic<size_t> offset;
@@ -59,6 +65,14 @@ public:
     // If there was race condition, this function returns MBError::TRY_AGAIN.
     int ReaderLockFreeStop(const LockFreeData& snapshot, size_t reader_offset,
         MBData& mbdata);
+    // A reader depends on every edge it has followed. Returns MBError::TRY_AGAIN
+    // if any of the edges has been or is being modified since the snapshot was
+    // taken, except for the pending update.
+    int ReaderLockFreeCheck(const LockFreeData& snapshot, const size_t* edge_offs,
+        int num_edge, const LockFreePending& pending) const;
+    // If the writer is updating the edge, replace the edge buffer with the edge
+    // as it will be after the update.
+    bool ReaderLoadPendingEdge(EdgePtrs& edge_ptrs, LockFreePending& pending) const;
 
 private:
     LockFreeShmData* shm_data_ptr;
-- 
2.43.0


From b7e953d57d9ef36cea0788f4283119b5e54a2289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:10 +0000
Subject: [PATCH 14/53] fix: an iterator must load each node from one
 consistent state

The path to the node and the edges of the node were validated separately, with
an uninitialised parent edge for the root, and a node removed since its parent
had been loaded ended the iteration. Keys present all the time could be missed.
---
 src/db.h         |  12 +++---
 src/dict.cpp     |   7 +++-
 src/dict.h       |   3 +-
 src/iterator.cpp | 101 +++++++++++++----------------------------------
 4 files changed, 42 insertions(+), 81 deletions(-)

diff --git a/src/db.h b/src/db.h
index 37bf8b3..0fa9d68 100644
--- a/src/db.h
+++ b/src/db.h
@@ -36,7 +36,7 @@ namespace mabain {
 
 class Dict;
 class MBlsq;
-class LockFree;
+struct ReaderLFGuard;
 class AsyncWriter;
 class ResourceCollection;
 class MmapFileIO;
@@ -93,11 +93,12 @@ public:
 
     private:
         bool match_prefix(const std::string& key);
-        int get_node_offset(const std::string& node_key, size_t& parent_edge_off,
-            size_t& node_offset);
-        int load_node(const std::string& curr_node_key, size_t& parent_edge_off);
+        int get_node_offset(const std::string& node_key, size_t& node_offset,
+            ReaderLFGuard& lf_guard);
+        int load_node(const std::string& curr_node_key, ReaderLFGuard& lf_guard);
         int load_kv_for_node(const std::string& curr_node_key);
-        int load_kvs(const std::string& curr_node_key, MBlsq* chid_node_list);
+        int load_kvs(const std::string& curr_node_key, MBlsq* chid_node_list,
+            ReaderLFGuard& lf_guard);
         void iter_obj_init();
         bool next_dbt_buffer(struct _DBTraverseNode* dbt_n);
         void add_node_offset(size_t node_offset);
@@ -110,7 +111,6 @@ public:
         uint8_t node_buff[NUM_ALPHABET + NODE_EDGE_KEY_FIRST];
         MBlsq* node_stack;
         MBlsq* kv_per_node;
-        LockFree* lfree;
     };
 
     // db_path: database directory
diff --git a/src/dict.cpp b/src/dict.cpp
index 047c84d..d3837a3 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -811,7 +811,7 @@ int64_t Dict::Count() const
 // For DB iterator
 int Dict::ReadNextEdge(const uint8_t* node_buff, EdgePtrs& edge_ptrs,
     int& match, MBData& data, std::string& match_str,
-    size_t& node_off, bool rd_kv) const
+    size_t& node_off, bool rd_kv, ReaderLFGuard* lf_guard) const
 {
     if (edge_ptrs.curr_nt > static_cast<int>(node_buff[1]))
         return MBError::OUT_OF_BOUND;
@@ -824,6 +824,11 @@ int Dict::ReadNextEdge(const uint8_t* node_buff, EdgePtrs& edge_ptrs,
 
     int rval = MBError::SUCCESS;
     InitTempEdgePtrs(edge_ptrs);
+    if (lf_guard != nullptr) {
+        rval = lf_guard->visit(edge_ptrs);
+        if (rval != MBError::SUCCESS)
+            return rval;
+    }
     if (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF) {
         // match of leaf node
         match = MATCH_EDGE;
diff --git a/src/dict.h b/src/dict.h
index 66893a0..0f030d1 100644
--- a/src/dict.h
+++ b/src/dict.h
@@ -39,6 +39,7 @@ namespace detail {
     class SearchEngine;
 }
 class PrefixCache;
+struct ReaderLFGuard;
 }
 
 namespace mabain {
@@ -105,7 +106,7 @@ public:
     // Used for DB iterator
     int ReadNextEdge(const uint8_t* node_buff, EdgePtrs& edge_ptrs, int& match,
         MBData& data, std::string& match_str, size_t& node_off,
-        bool rd_kv = true) const;
+        bool rd_kv = true, ReaderLFGuard* lf_guard = nullptr) const;
     int ReadNode(size_t node_off, uint8_t* node_buff, EdgePtrs& edge_ptrs,
         int& match, MBData& data, bool rd_kv = true) const;
     void ReadNodeHeader(size_t node_off, int& node_size, int& match,
diff --git a/src/iterator.cpp b/src/iterator.cpp
index 0b3716b..972a397 100644
--- a/src/iterator.cpp
+++ b/src/iterator.cpp
@@ -17,6 +17,7 @@
 // @author Changxue Deng <chadeng@cisco.com>
 
 #include "db.h"
+#include "detail/lf_guard.h"
 #include "detail/search_engine.h"
 #include "dict.h"
 #include "integer_4b_5b.h"
@@ -108,13 +109,6 @@ void DB::iterator::iter_obj_init()
 {
     node_stack = NULL;
     kv_per_node = NULL;
-    lfree = NULL;
-
-    if (!(db_ref.GetDBOptions() & CONSTS::ACCESS_MODE_WRITER)) {
-#ifdef __LOCK_FREE__
-        lfree = db_ref.dict->GetLockFreePtr();
-#endif
-    }
 
     if (state == DB_ITER_STATE_INIT)
         state = DB_ITER_STATE_MORE;
@@ -199,24 +193,22 @@ bool DB::iterator::match_prefix(const std::string& key)
 }
 
 int DB::iterator::get_node_offset(const std::string& node_key,
-    size_t& parent_edge_off,
-    size_t& node_offset)
+    size_t& node_offset, ReaderLFGuard& lf_guard)
 {
-    int rval;
+    size_t root_off = 0;
+    if (value.options & CONSTS::OPTION_RC_MODE)
+        root_off = db_ref.dict->GetHeaderPtr()->rc_root_offset.load(MEMORY_ORDER_READER);
 
     node_offset = 0;
     value.options |= CONSTS::OPTION_FIND_AND_STORE_PARENT;
     detail::SearchEngine engine(*db_ref.dict);
-    while (true) {
-        rval = engine.find(reinterpret_cast<const uint8_t*>(node_key.data()),
-            static_cast<int>(node_key.size()), value);
-        if (rval != MBError::TRY_AGAIN)
-            break;
-        nanosleep((const struct timespec[]) { { 0, 10L } }, NULL);
-    }
+    int rval = engine.findGuarded(root_off, reinterpret_cast<const uint8_t*>(node_key.data()),
+        static_cast<int>(node_key.size()), value, lf_guard);
+    // The edge no longer leads to a node if everything below it has been removed.
+    if (rval == MBError::IN_DICT && (value.edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF))
+        rval = MBError::NOT_EXIST;
 
     if (rval == MBError::IN_DICT) {
-        parent_edge_off = edge_ptrs.parent_offset;
         node_offset = Get6BInteger(value.edge_ptrs.offset_ptr);
         rval = MBError::SUCCESS;
     }
@@ -224,7 +216,7 @@ int DB::iterator::get_node_offset(const std::string& node_key,
 }
 
 int DB::iterator::load_kvs(const std::string& curr_node_key,
-    MBlsq* child_node_list)
+    MBlsq* child_node_list, ReaderLFGuard& lf_guard)
 {
     int rval;
     size_t child_node_off;
@@ -232,25 +224,8 @@ int DB::iterator::load_kvs(const std::string& curr_node_key,
     iterator_node* inode;
 
     while (true) {
-        if (lfree == NULL) {
-            rval = db_ref.dict->ReadNextEdge(node_buff, edge_ptrs, match, value,
-                match_str, child_node_off);
-        } else {
-#ifdef __LOCK_FREE__
-            LockFreeData snapshot;
-            int lf_ret;
-            size_t edge_off_prev = edge_ptrs.offset;
-            lfree->ReaderLockFreeStart(snapshot);
-#endif
-            rval = db_ref.dict->ReadNextEdge(node_buff, edge_ptrs, match, value,
-                match_str, child_node_off);
-#ifdef __LOCK_FREE__
-            lf_ret = lfree->ReaderLockFreeStop(snapshot, edge_off_prev, value);
-            if (lf_ret == MBError::TRY_AGAIN)
-                return lf_ret;
-#endif
-        }
-
+        rval = db_ref.dict->ReadNextEdge(node_buff, edge_ptrs, match, value,
+            match_str, child_node_off, true, &lf_guard);
         if (rval != MBError::SUCCESS)
             break;
 
@@ -287,7 +262,7 @@ int DB::iterator::load_kvs(const std::string& curr_node_key,
 }
 
 int DB::iterator::load_node(const std::string& curr_node_key,
-    size_t& parent_edge_off)
+    ReaderLFGuard& lf_guard)
 {
     int rval;
 
@@ -295,7 +270,7 @@ int DB::iterator::load_node(const std::string& curr_node_key,
         rval = db_ref.dict->ReadRootNode(node_buff, edge_ptrs, match, value);
     } else {
         size_t node_offset;
-        rval = get_node_offset(curr_node_key, parent_edge_off, node_offset);
+        rval = get_node_offset(curr_node_key, node_offset, lf_guard);
         if (rval != MBError::SUCCESS)
             return rval;
         rval = db_ref.dict->ReadNode(node_offset, node_buff, edge_ptrs, match,
@@ -309,42 +284,22 @@ int DB::iterator::load_kv_for_node(const std::string& curr_node_key)
 {
     int rval;
     MBlsq child_node_list(free_iterator_node);
-    size_t parent_edge_off;
 
-    if (lfree == NULL) {
-        rval = load_node(curr_node_key, parent_edge_off);
+    while (true) {
+        // The content of the node and the path leading to the node must be
+        // consistent. Otherwise the node is loaded again.
+        ReaderLFGuard lf_guard(*db_ref.dict->GetLockFreePtr());
+        rval = load_node(curr_node_key, lf_guard);
         if (rval == MBError::SUCCESS)
-            rval = load_kvs(curr_node_key, &child_node_list);
-    } else {
-#ifdef __LOCK_FREE__
-        LockFreeData snapshot;
-        int lf_ret;
-#endif
-        while (true) {
-#ifdef __LOCK_FREE__
-            lfree->ReaderLockFreeStart(snapshot);
-#endif
-            rval = load_node(curr_node_key, parent_edge_off);
-            if (rval == MBError::SUCCESS) {
-                rval = load_kvs(curr_node_key, &child_node_list);
-#ifdef __LOCK_FREE__
-                if (rval == MBError::TRY_AGAIN) {
-                    kv_per_node->Clear();
-                    child_node_list.Clear();
-                    continue;
-                }
-#endif
-            }
-#ifdef __LOCK_FREE__
-            lf_ret = lfree->ReaderLockFreeStop(snapshot, parent_edge_off, value);
-            if (lf_ret == MBError::TRY_AGAIN) {
-                kv_per_node->Clear();
-                child_node_list.Clear();
-                continue;
-            }
-#endif
+            rval = load_kvs(curr_node_key, &child_node_list, lf_guard);
+        else if (rval == MBError::NOT_EXIST)
+            rval = MBError::SUCCESS; // The node was removed after its parent had been loaded.
+        if (lf_guard.stop() == MBError::SUCCESS && rval != MBError::TRY_AGAIN)
             break;
-        }
+
+        kv_per_node->Clear();
+        child_node_list.Clear();
+        nanosleep((const struct timespec[]) { { 0, 10L } }, NULL);
     }
 
     if (rval == MBError::SUCCESS) {
-- 
2.43.0


From 3c1a1a7386dccf2e1da51b3c446e4285067f09c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:10 +0000
Subject: [PATCH 15/53] fix: a remove must unlink before it releases, and in
 one step

Value and node buffers were released while readers could still reach them, the
match flag of a node was cleared without notifying readers, and emptying a chain
of nodes exposed edges leading to released nodes.
---
 src/dict.cpp     | 104 +++++++++++++----------------
 src/dict.h       |   2 +-
 src/dict_mem.cpp | 166 ++++++++++++++++++++++-------------------------
 src/dict_mem.h   |  20 ++++--
 4 files changed, 139 insertions(+), 153 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index d3837a3..6c0d76d 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -675,61 +675,65 @@ int Dict::ReadDataFromEdge(MBData& data, const EdgePtrs& edge_ptrs) const
 
 // Delete operations:
 //   If this is a leaf node, need to remove the edge. Otherwise, unset the match flag.
-//   Also need to set the delete flag in the data block so that it can be reclaimed later.
-int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs)
+//   The data block can be reclaimed after that.
+int Dict::DeleteDataFromEdge(const uint8_t* key, int len, MBData& data)
 {
     int rval = MBError::SUCCESS;
+    EdgePtrs& edge_ptrs = data.edge_ptrs;
     size_t data_off;
-    uint16_t data_len;
-    int rel_size;
 
     // Check if this is a leaf node first by using the EDGE_FLAG_DATA_OFF bit
     if (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF) {
         data_off = Get6BInteger(edge_ptrs.offset_ptr);
-        if (ReadData(reinterpret_cast<uint8_t*>(&data_len), DATA_SIZE_BYTE, data_off)
-            != DATA_SIZE_BYTE)
-            return MBError::READ_ERROR;
-        if (options & CONSTS::OPTION_JEMALLOC) {
-            rel_size = data_len + DATA_HDR_BYTE;
-        } else {
-            rel_size = free_lists->GetAlignmentSize(data_len + DATA_HDR_BYTE);
+
+        std::vector<ReleasedBuffer> released;
+        rval = mm.RemoveEdgeByIndex(edge_ptrs, data, released);
+        while (rval == MBError::TRY_AGAIN) {
+            // The node has no other entry. Remove the edge leading to the node.
+            data.Clear();
+            len -= data.edge_ptrs.len_ptr[0];
+#ifdef __DEBUG__
+            assert(len > 0);
+#endif
+            {
+                detail::SearchEngine engine(*this);
+                rval = engine.find(key, len, data);
+            }
+            if (MBError::IN_DICT == rval)
+                rval = mm.RemoveEdgeByIndex(data.edge_ptrs, data, released);
         }
-        ReleaseBuffer(data_off, rel_size);
-        rval = mm.RemoveEdgeByIndex(edge_ptrs, data);
     } else {
-        // No exception handling in this case
-        header->excep_lf_offset = 0;
-        header->excep_offset = 0;
-
-        uint8_t node_buff[NODE_EDGE_KEY_FIRST];
+        uint8_t* node_buff = header->excep_buff;
         size_t node_off = Get6BInteger(edge_ptrs.offset_ptr);
 
         // Read node header
         if (mm.ReadData(node_buff, NODE_EDGE_KEY_FIRST, node_off) != NODE_EDGE_KEY_FIRST)
             return MBError::READ_ERROR;
+        if (!(node_buff[0] & FLAG_NODE_MATCH))
+            return MBError::NOT_EXIST;
+        data_off = Get6BInteger(node_buff + 2);
 
-        if (node_buff[0] & FLAG_NODE_MATCH) {
-            // Unset the match flag
-            node_buff[0] &= ~FLAG_NODE_MATCH;
-            mm.WriteData(&node_buff[0], 1, node_off);
-
-            // Release data buffer
-            data_off = Get6BInteger(node_buff + 2);
-            if (ReadData(reinterpret_cast<uint8_t*>(&data_len), DATA_SIZE_BYTE, data_off)
-                != DATA_SIZE_BYTE)
-                return MBError::READ_ERROR;
-
-            if (options & CONSTS::OPTION_JEMALLOC) {
-                rel_size = data_len + DATA_HDR_BYTE;
-            } else {
-                rel_size = free_lists->GetAlignmentSize(data_len + DATA_HDR_BYTE);
-            }
-            ReleaseBuffer(data_off, rel_size);
-        } else {
-            rval = MBError::NOT_EXIST;
-        }
+        // Unset the match flag
+        node_buff[0] &= ~FLAG_NODE_MATCH;
+        node_buff[NODE_EDGE_KEY_FIRST] = 0;
+        header->excep_offset = node_off;
+        header->excep_lf_offset = edge_ptrs.offset;
+        header->excep_updating_status = EXCEP_STATUS_ADD_NODE;
+#ifdef __LOCK_FREE__
+        lfree.WriterLockFreeStart(edge_ptrs.offset);
+#endif
+        mm.WriteData(node_buff, NODE_EDGE_KEY_FIRST, node_off);
+#ifdef __LOCK_FREE__
+        lfree.WriterLockFreeStop();
+#endif
+        header->excep_updating_status = EXCEP_STATUS_NONE;
+        header->excep_lf_offset = 0;
+        header->excep_offset = 0;
     }
 
+    if (rval == MBError::SUCCESS && ReleaseBuffer(data_off) != MBError::SUCCESS)
+        Logger::Log(LOG_LEVEL_WARN, "failed to release data buffer: %llu", data_off);
+
     return rval;
 }
 
@@ -968,23 +972,8 @@ int Dict::Remove(const uint8_t* key, int len, MBData& data)
         detail::SearchEngine engine(*this);
         rval = engine.find(key, len, data);
     }
-    if (rval == MBError::IN_DICT) {
-        rval = DeleteDataFromEdge(data, data.edge_ptrs);
-        while (rval == MBError::TRY_AGAIN) {
-            data.Clear();
-            len -= data.edge_ptrs.len_ptr[0];
-#ifdef __DEBUG__
-            assert(len > 0);
-#endif
-            {
-                detail::SearchEngine engine(*this);
-                rval = engine.find(key, len, data);
-            }
-            if (MBError::IN_DICT == rval) {
-                rval = mm.RemoveEdgeByIndex(data.edge_ptrs, data);
-            }
-        }
-    }
+    if (rval == MBError::IN_DICT)
+        rval = DeleteDataFromEdge(key, len, data);
 
     if (rval == MBError::SUCCESS) {
         header->count--;
@@ -1462,9 +1451,8 @@ int Dict::ExceptionRecovery()
 #ifdef __LOCK_FREE__
         lfree.WriterLockFreeStart(header->excep_lf_offset);
 #endif
-        Write6BInteger(header->excep_buff, header->excep_offset);
-        mm.WriteData(header->excep_buff, OFFSET_SIZE,
-            header->excep_lf_offset + EDGE_NODE_LEADING_POS);
+        mm.WriteData(header->excep_buff, EDGE_SIZE, header->excep_lf_offset);
+        header->count--;
         break;
     case EXCEP_STATUS_CLEAR_EDGE:
 #ifdef __LOCK_FREE__
diff --git a/src/dict.h b/src/dict.h
index 0f030d1..c62b534 100644
--- a/src/dict.h
+++ b/src/dict.h
@@ -148,7 +148,7 @@ private:
     int UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, bool& inc_count);
     int ReadDataFromEdge(MBData& data, const EdgePtrs& edge_ptrs) const;
     int ReadDataFromNode(MBData& data, const uint8_t* node_ptr) const;
-    int DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs);
+    int DeleteDataFromEdge(const uint8_t* key, int len, MBData& data);
     int ReadNodeMatch(size_t node_off, int& match, MBData& data) const;
     int SHMQ_PrepareSlot(AsyncNode* node_ptr);
     AsyncNode* SHMQ_AcquireSlot(int& err) const;
diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index 5c363ee..114975e 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -1291,8 +1291,6 @@ void DictMem::RemoveRootEdge(const EdgePtrs& edge_ptrs)
 {
     // Clear the edge
     // Root node needs special handling.
-    if (edge_ptrs.len_ptr[0] > LOCAL_EDGE_LEN)
-        ReleaseBuffer(Get5BInteger(edge_ptrs.ptr), edge_ptrs.len_ptr[0] - 1);
 #ifdef __LOCK_FREE__
     header->excep_lf_offset = edge_ptrs.offset;
     header->excep_updating_status = EXCEP_STATUS_CLEAR_EDGE;
@@ -1309,8 +1307,6 @@ int DictMem::RemoveEdgeSizeN(const EdgePtrs& edge_ptrs,
     int nt,
     size_t node_offset,
     uint8_t* old_node_buffer,
-    size_t& str_off_rel,
-    int& str_size_rel,
     size_t parent_edge_offset)
 {
     // Reserve a new node with nt-1
@@ -1333,13 +1329,7 @@ int DictMem::RemoveEdgeSizeN(const EdgePtrs& edge_ptrs,
         if (ReadData(old_edge_buff, EDGE_SIZE, old_edge_offset) != EDGE_SIZE)
             return MBError::READ_ERROR;
 
-        if (i == edge_ptrs.curr_edge_index) {
-            // Need to release this edge string buffer
-            if (old_edge_buff[EDGE_LEN_POS] > LOCAL_EDGE_LEN) {
-                str_off_rel = Get5BInteger(old_edge_buff);
-                str_size_rel = old_edge_buff[EDGE_LEN_POS] - 1;
-            }
-        } else {
+        if (i != edge_ptrs.curr_edge_index) {
             first_key_ptr[0] = old_node_buffer[NODE_EDGE_KEY_FIRST + i];
             memcpy(edge_ptr, old_edge_buff, EDGE_SIZE);
 
@@ -1354,109 +1344,109 @@ int DictMem::RemoveEdgeSizeN(const EdgePtrs& edge_ptrs,
         WriteData(node, node_size[nt - 2], new_node_offset);
 
     // Update the link from parent edge to the new node offset
-    Write6BInteger(header->excep_buff, new_node_offset);
-#ifdef __LOCK_FREE__
-    lfree->WriterLockFreeStart(parent_edge_offset);
-#endif
-    WriteData(header->excep_buff, OFFSET_SIZE, parent_edge_offset + EDGE_NODE_LEADING_POS);
-#ifdef __LOCK_FREE__
-    lfree->WriterLockFreeStop();
-#endif
+    if (ReadData(header->excep_buff, EDGE_SIZE, parent_edge_offset) != EDGE_SIZE)
+        return MBError::READ_ERROR;
+    Write6BInteger(header->excep_buff + EDGE_NODE_LEADING_POS, new_node_offset);
+    WriteParentEdge(parent_edge_offset);
 
     return MBError::SUCCESS;
 }
 
-int DictMem::RemoveEdgeSizeOne(uint8_t* old_node_buffer,
-    size_t parent_edge_offset,
-    size_t node_offset,
-    int nt,
-    size_t& str_off_rel,
-    int& str_size_rel)
+int DictMem::RemoveEdgeSizeOne(const uint8_t* old_node_buffer,
+    size_t parent_edge_offset)
 {
-    int rval = MBError::SUCCESS;
+    // The parent edge becomes a leaf edge
+    if (ReadData(header->excep_buff, EDGE_SIZE, parent_edge_offset) != EDGE_SIZE)
+        return MBError::READ_ERROR;
+    header->excep_buff[EDGE_FLAG_POS] = EDGE_FLAG_DATA_OFF;
+    Write6BInteger(header->excep_buff + EDGE_NODE_LEADING_POS, Get6BInteger(old_node_buffer + 2));
+    WriteParentEdge(parent_edge_offset);
+
+    return MBError::SUCCESS;
+}
 
-    if (old_node_buffer[0] & FLAG_NODE_MATCH) {
-        uint8_t* parent_edge_buff = header->excep_buff;
-        size_t data_offset = Get6BInteger(old_node_buffer + 2);
-        parent_edge_buff[0] = EDGE_FLAG_DATA_OFF;
-        Write6BInteger(parent_edge_buff + 1, data_offset);
+// Write the parent edge prepared in excep_buff. The full edge is kept in excep_buff
+// so that the update can be completed if the writer is terminated in the middle.
+void DictMem::WriteParentEdge(size_t parent_edge_offset)
+{
+    header->excep_lf_offset = parent_edge_offset;
+    header->excep_updating_status = EXCEP_STATUS_REMOVE_EDGE;
 #ifdef __LOCK_FREE__
-        lfree->WriterLockFreeStart(parent_edge_offset);
+    lfree->WriterLockFreeStart(parent_edge_offset);
 #endif
-        // Write the one-byte flag and 6-byte offset
-        WriteData(parent_edge_buff, OFFSET_SIZE_P1, parent_edge_offset + EDGE_FLAG_POS);
+    WriteData(header->excep_buff, EDGE_SIZE, parent_edge_offset);
 #ifdef __LOCK_FREE__
-        lfree->WriterLockFreeStop();
+    lfree->WriterLockFreeStop();
 #endif
-    } else {
-        // This is an internal node.
-        rval = MBError::TRY_AGAIN;
-    }
-
-    uint8_t old_edge_buff[16];
-    size_t old_edge_offset = node_offset + NODE_EDGE_KEY_FIRST + nt;
-    if (ReadData(old_edge_buff, EDGE_SIZE, old_edge_offset) != EDGE_SIZE)
-        return MBError::READ_ERROR;
-    if (old_edge_buff[EDGE_LEN_POS] > LOCAL_EDGE_LEN) {
-        str_off_rel = Get5BInteger(old_edge_buff);
-        str_size_rel = old_edge_buff[EDGE_LEN_POS] - 1;
-    }
-
-    return rval;
+    header->excep_updating_status = EXCEP_STATUS_NONE;
 }
 
-int DictMem::RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data)
+// Remove one edge. If this is the only edge of a node that holds no value, the whole
+// node has to be removed by removing the edge leading to it. In this case nothing is
+// changed, TRY_AGAIN is returned and the caller must remove the parent edge using
+// the same list of released buffers. The buffers are released when they are
+// not linked anymore.
+int DictMem::RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data,
+    std::vector<ReleasedBuffer>& released)
 {
     header->excep_offset = edge_ptrs.curr_node_offset;
 
-    if (header->excep_offset == root_offset) {
-        RemoveRootEdge(edge_ptrs);
-        return MBError::SUCCESS;
-    }
-
-    int nt = edge_ptrs.curr_nt;
-    if (nt < 1)
-        return MBError::INVALID_ARG;
-
-    uint8_t* old_node_buffer = data.node_buff;
-    // load the current node
-    if (ReadData(old_node_buffer, NODE_EDGE_KEY_FIRST + nt, edge_ptrs.curr_node_offset)
-        != NODE_EDGE_KEY_FIRST + nt)
+    uint8_t edge_buff[EDGE_SIZE];
+    if (ReadData(edge_buff, EDGE_SIZE, edge_ptrs.offset) != EDGE_SIZE)
         return MBError::READ_ERROR;
+    if (edge_buff[EDGE_LEN_POS] > LOCAL_EDGE_LEN)
+        released.push_back({ Get5BInteger(edge_buff), edge_buff[EDGE_LEN_POS] - 1, false });
 
-    int rval = MBError::SUCCESS;
-    size_t str_off_rel;
-    int str_size_rel = 0;
-
-    header->excep_lf_offset = edge_ptrs.parent_offset;
-    header->excep_updating_status = EXCEP_STATUS_REMOVE_EDGE;
-    if (nt > 1) {
-        rval = RemoveEdgeSizeN(edge_ptrs, nt, header->excep_offset, old_node_buffer,
-            str_off_rel, str_size_rel, header->excep_lf_offset);
+    if (edge_ptrs.curr_node_offset == root_offset) {
+        RemoveRootEdge(edge_ptrs);
     } else {
-        rval = DictMem::RemoveEdgeSizeOne(old_node_buffer, header->excep_lf_offset,
-            header->excep_offset, nt, str_off_rel, str_size_rel);
-    }
-    header->excep_updating_status = EXCEP_STATUS_NONE;
+        int nt = edge_ptrs.curr_nt;
+        if (nt < 1)
+            return MBError::INVALID_ARG;
+
+        uint8_t* old_node_buffer = data.node_buff;
+        // load the current node
+        if (ReadData(old_node_buffer, NODE_EDGE_KEY_FIRST + nt, edge_ptrs.curr_node_offset)
+            != NODE_EDGE_KEY_FIRST + nt)
+            return MBError::READ_ERROR;
 
-    header->n_edges--;
-    ReleaseNode(header->excep_offset, nt - 1);
-    if (str_size_rel > 0)
-        ReleaseBuffer(str_off_rel, str_size_rel);
+        released.push_back({ edge_ptrs.curr_node_offset, nt - 1, true });
+        int rval;
+        if (nt > 1) {
+            rval = RemoveEdgeSizeN(edge_ptrs, nt, edge_ptrs.curr_node_offset, old_node_buffer,
+                edge_ptrs.parent_offset);
+        } else if (old_node_buffer[0] & FLAG_NODE_MATCH) {
+            rval = RemoveEdgeSizeOne(old_node_buffer, edge_ptrs.parent_offset);
+        } else {
+            rval = MBError::TRY_AGAIN;
+        }
+        if (rval != MBError::SUCCESS)
+            return rval;
 
         // Clear the edge
 #ifdef __LOCK_FREE__
-    header->excep_lf_offset = edge_ptrs.offset;
-    header->excep_updating_status = EXCEP_STATUS_CLEAR_EDGE;
-    lfree->WriterLockFreeStart(edge_ptrs.offset);
+        header->excep_lf_offset = edge_ptrs.offset;
+        header->excep_updating_status = EXCEP_STATUS_CLEAR_EDGE;
+        lfree->WriterLockFreeStart(edge_ptrs.offset);
 #endif
-    WriteData(DictMem::empty_edge, EDGE_SIZE, edge_ptrs.offset);
+        WriteData(DictMem::empty_edge, EDGE_SIZE, edge_ptrs.offset);
 #ifdef __LOCK_FREE__
-    lfree->WriterLockFreeStop();
-    header->excep_updating_status = EXCEP_STATUS_NONE;
+        lfree->WriterLockFreeStop();
+        header->excep_updating_status = EXCEP_STATUS_NONE;
 #endif
+    }
 
-    return rval;
+    for (const ReleasedBuffer& rel : released) {
+        if (rel.is_node) {
+            header->n_edges--;
+            ReleaseNode(rel.offset, rel.size);
+        } else {
+            ReleaseBuffer(rel.offset, rel.size);
+        }
+    }
+    released.clear();
+
+    return MBError::SUCCESS;
 }
 
 // Should only be called by writer
diff --git a/src/dict_mem.h b/src/dict_mem.h
index bcb9374..bf2f43f 100644
--- a/src/dict_mem.h
+++ b/src/dict_mem.h
@@ -25,6 +25,7 @@
 #include <stdint.h>
 #include <string.h>
 #include <string>
+#include <vector>
 
 #include "db.h"
 #include "drm_base.h"
@@ -46,6 +47,14 @@ typedef struct _NodePtrs {
     uint8_t* edge_ptr;
 } NodePtrs;
 
+// A buffer to be released after it is not linked anymore. The size is the number
+// of edges minus one for nodes.
+typedef struct _ReleasedBuffer {
+    size_t offset;
+    int size;
+    bool is_node;
+} ReleasedBuffer;
+
 // Memory management class for the dictionary
 class DictMem : public DRMBase {
 public:
@@ -84,7 +93,8 @@ public:
     int NextLowerBoundEdge(const uint8_t* key, int len, EdgePtrs& edge_ptrs,
         uint8_t* node_buff, MBData& mbdata, EdgePtrs& less_edge_ptrs, int& le_edge_key) const;
     int NextMaxEdge(EdgePtrs& edge_ptrs, uint8_t* node_buff, MBData& mbdata, int& max_key) const;
-    int RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data);
+    int RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data,
+        std::vector<ReleasedBuffer>& released);
     void InitRootNode();
     inline void WriteEdge(const EdgePtrs& edge_ptrs) const;
     void WriteData(const uint8_t* buff, unsigned len, size_t offset) const;
@@ -117,11 +127,9 @@ private:
         size_t& edge_str_off, bool& map_new_sliding);
     void RemoveRootEdge(const EdgePtrs& edge_ptrs);
     int RemoveEdgeSizeN(const EdgePtrs& edge_ptrs, int nt, size_t node_offset,
-        uint8_t* old_node_buffer, size_t& str_off_rel,
-        int& str_size_rel, size_t parent_edge_offset);
-    int RemoveEdgeSizeOne(uint8_t* old_node_buffer, size_t parent_edge_offset,
-        size_t node_offset, int nt, size_t& str_off_rel,
-        int& str_size_rel);
+        uint8_t* old_node_buffer, size_t parent_edge_offset);
+    int RemoveEdgeSizeOne(const uint8_t* old_node_buffer, size_t parent_edge_offset);
+    void WriteParentEdge(size_t parent_edge_offset);
     int ReadNode(size_t& offset, EdgePtrs& edge_ptrs, uint8_t* node_buff,
         MBData& mbdata, int& nt) const;
     void reserveDataFL(const uint8_t* key, int size, size_t& offset, bool map_new_sliding);
-- 
2.43.0


From 3554d999eaa1a0e7cc218b3f744c83d41bb03a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:00 +0000
Subject: [PATCH 16/53] fix: mark a new database valid only when it is fully
 initialized

The header version was set before the root node and the remaining header
fields. If the writer was terminated in between, the next open considered
the database valid although it had never been initialized.
---
 src/dict_mem.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index 114975e..eb4cf44 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -199,11 +199,7 @@ DictMem::DictMem(const std::string& mbdir, bool init_header, size_t memsize,
     if (init_header) {
         // set writer options
         header->writer_options = options;
-        // Set up DB version
-        header->version[0] = version[0];
-        header->version[1] = version[1];
-        header->version[2] = version[2];
-        header->version[3] = 0;
+        // The DB version is set in InitRootNode when everything else is initialized.
         // Step 2: make rebuild metadata initialization explicit for new-format DBs.
         header->ClearRebuildMetadata();
         header->ResetReaderEpochState();
@@ -216,8 +212,6 @@ DictMem::DictMem(const std::string& mbdir, bool init_header, size_t memsize,
     } else {
         is_valid = true;
     }
-    Logger::Log(LOG_LEVEL_DEBUG, "set mabain db version to %u.%u.%u",
-        header->version[0], header->version[1], header->version[2]);
 }
 
 // The whole edge is initialized to zero.
@@ -247,6 +241,15 @@ void DictMem::InitRootNode()
     if (node_move)
         WriteData(root_node, node_size[NUM_ALPHABET - 1], root_offset);
 
+    // Set up DB version. The version is set at last so that a database is never
+    // considered valid if the writer is terminated before it is fully initialized.
+    header->version[3] = 0;
+    header->version[2] = version[2];
+    header->version[1] = version[1];
+    header->version[0] = version[0];
+    Logger::Log(LOG_LEVEL_DEBUG, "set mabain db version to %u.%u.%u",
+        header->version[0], header->version[1], header->version[2]);
+
     // Everything is running fine if reaching this point.
     is_valid = true;
 }
-- 
2.43.0


From 989048757e9620e78ef8246570f268dfae3d4324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:03 +0000
Subject: [PATCH 17/53] fix: ignore a truncated free list file

A writer terminated while storing the free lists leaves a truncated file.
The next writer added an undefined offset to the free list.
---
 src/free_list.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/free_list.cpp b/src/free_list.cpp
index 844760d..625dc34 100644
--- a/src/free_list.cpp
+++ b/src/free_list.cpp
@@ -193,11 +193,16 @@ int FreeList::LoadListFromDisk()
         // Read header
         freelist_f.read((char*)&buf_index, sizeof(size_t));
         freelist_f.read((char*)&buf_count, sizeof(int64_t));
-        if (freelist_f.eof())
+        if (!freelist_f)
             break;
         for (int64_t i = 0; i < buf_count; i++) {
             size_t offset;
             freelist_f.read((char*)&offset, sizeof(size_t));
+            if (!freelist_f) {
+                // The file is truncated. The writer was terminated when writing it.
+                Logger::Log(LOG_LEVEL_WARN, "%s is truncated", list_path.c_str());
+                break;
+            }
             buffer_free_list[buf_index]->AddIntToTail(offset);
             count++;
             tot_size += (buf_index + 1) * alignment;
-- 
2.43.0


From d5f987bd98bf8c09502c016dd6c41e532f02aad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:03 +0000
Subject: [PATCH 18/53] fix: RemoveAll must clear the root edges before the
 space is reused

If the writer was terminated in RemoveAll, the entries not removed yet were
overwritten by new entries.
---
 src/dict.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 6c0d76d..30cc680 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -987,8 +987,8 @@ int Dict::RemoveAll()
     int rval = MBError::SUCCESS;
 
     ClearPrefixCache();
-    mm.ClearMem(); // clear memory will re-initialize jemalloc
     if (options & CONSTS::OPTION_JEMALLOC) {
+        mm.ClearMem(); // clear memory will re-initialize jemalloc
         mm.InitRootNode();
         kv_file->ResetJemalloc();
         // Keep the embedded prefix cache out of the new arena.
@@ -1005,6 +1005,8 @@ int Dict::RemoveAll()
             if (rval != MBError::SUCCESS)
                 break;
         }
+        // The space must not be reused before all root edges are cleared.
+        mm.ClearMem();
         header->m_data_offset = GetStartDataOffset();
         free_lists->Empty();
     }
-- 
2.43.0


From c98a9d66591f1b82231731eeca965473f57a74dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:03 +0000
Subject: [PATCH 19/53] fix: complete an interrupted update when the writer is
 restarted

Dict::ExceptionRecovery was never called when a database is opened, and the
lock-free data was reset before the update had been completed. The offset
used in the recovery must be set before the exception status.
---
 src/db.cpp        | 12 ++++++++++++
 src/dict.cpp      |  5 +++--
 src/lock_free.cpp |  9 ++++++---
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index 4b06524..32defc5 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -498,6 +498,18 @@ void DB::PostDBUpdate(const MBConfig& config, bool init_header, bool update_head
         }
     }
 
+    if ((config.options & CONSTS::ACCESS_MODE_WRITER) && !(config.options & CONSTS::OPTION_JEMALLOC)) {
+        // Complete the update interrupted by an abnormal termination of the previous writer.
+        int rval;
+        try {
+            rval = dict->ExceptionRecovery();
+        } catch (int err) {
+            rval = err;
+        }
+        if (rval != MBError::SUCCESS)
+            Logger::Log(LOG_LEVEL_WARN, "dict exception recovery failed: %s", MBError::get_error_str(rval));
+    }
+
     lock.Init(dict->GetShmLockPtr());
     UpdateNumHandlers(config.options, 1);
 
diff --git a/src/dict.cpp b/src/dict.cpp
index 30cc680..d9a40ec 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -1207,9 +1207,10 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, boo
         Write6BInteger(edge_ptrs.offset_ptr, mbd.data_offset);
 
         memcpy(header->excep_buff, edge_ptrs.offset_ptr, OFFSET_SIZE);
+        // The offset must be set before the status since it is used in exception recovery.
+        header->excep_lf_offset = edge_ptrs.offset;
         header->excep_updating_status = EXCEP_STATUS_ADD_DATA_OFF;
 #ifdef __LOCK_FREE__
-        header->excep_lf_offset = edge_ptrs.offset;
         lfree.WriterLockFreeStart(edge_ptrs.offset);
 #endif
         mm.WriteData(edge_ptrs.offset_ptr, OFFSET_SIZE, edge_ptrs.offset + EDGE_NODE_LEADING_POS);
@@ -1243,9 +1244,9 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, boo
         Write6BInteger(node_buff + 2, mbd.data_offset);
 
         header->excep_offset = node_off;
+        header->excep_lf_offset = edge_ptrs.offset;
         header->excep_updating_status = EXCEP_STATUS_ADD_NODE;
 #ifdef __LOCK_FREE__
-        header->excep_lf_offset = edge_ptrs.offset;
         lfree.WriterLockFreeStart(edge_ptrs.offset);
 #endif
         mm.WriteData(node_buff, NODE_EDGE_KEY_FIRST, node_off);
diff --git a/src/lock_free.cpp b/src/lock_free.cpp
index ce37024..b0968d2 100644
--- a/src/lock_free.cpp
+++ b/src/lock_free.cpp
@@ -41,9 +41,12 @@ void LockFree::LockFreeInit(LockFreeShmData* lock_free_ptr, IndexHeader* hdr, in
     shm_data_ptr = lock_free_ptr;
     header = hdr;
     if (mode & CONSTS::ACCESS_MODE_WRITER) {
-        // Clear the lock free data
-        shm_data_ptr->counter.store(0, MEMORY_ORDER_WRITER);
-        shm_data_ptr->offset.store(MAX_6B_OFFSET, MEMORY_ORDER_WRITER);
+        // The counter must not go back since readers may hold a snapshot taken before
+        // the writer was restarted. If the previous writer was terminated in an
+        // update, the offset is kept until the update is completed by the recovery.
+        if (header == NULL || header->excep_updating_status == EXCEP_STATUS_NONE
+            || (mode & CONSTS::OPTION_JEMALLOC))
+            shm_data_ptr->offset.store(MAX_6B_OFFSET, MEMORY_ORDER_WRITER);
     }
 }
 
-- 
2.43.0


From 5269497941c5e3937b02faf7180f3ad95645b1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:10 +0000
Subject: [PATCH 20/53] fix: the lower bound search must return the largest
 entry not greater than the key

The search missed candidates at the root and at internal nodes, returned
entries greater than the key, and did not terminate on some trees.
---
 src/detail/search_engine.cpp | 305 +++++++++++------------------------
 src/detail/search_engine.h   |  31 ++--
 2 files changed, 109 insertions(+), 227 deletions(-)

diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index d98aeae..4374066 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -120,113 +120,38 @@ namespace detail {
         return rval;
     }
 
+    // Walk down along the key. On the way the largest entry known to be less than the
+    // key is remembered, that is, either the value of an internal node on the path or the
+    // subtree of the largest lesser sibling. Deeper candidates are always larger.
     int SearchEngine::lowerBound(const uint8_t* key, int len, MBData& data, std::string* bound_key)
     {
-        int rval;
-        EdgePtrs& edge_ptrs = data.edge_ptrs;
-        EdgePtrs bound_edge_ptrs;
-        bound_edge_ptrs.curr_edge_index = -1;
-
-        BoundSearchState bound_state {
-            .key = key,
-            .node_buff = data.node_buff,
-            .bound_key = bound_key,
-            .le_match_len = 0,
-            .le_edge_key = -1,
-            .use_curr_edge = false
-        };
-
-        int root_key = key[0];
-        rval = lowerBoundCore(key, len, data, bound_key, bound_edge_ptrs, bound_state, root_key);
-
-        if (rval == MBError::NOT_EXIST) {
-            if (bound_state.use_curr_edge) {
-                data.options &= ~CONSTS::OPTION_INTERNAL_NODE_BOUND;
-                rval = readLowerBound(edge_ptrs, data, bound_key, -1);
-            } else {
-                if (bound_key != nullptr) {
-                    bound_key->append((char*)key, bound_state.le_match_len);
-                    if (data.options & CONSTS::OPTION_INTERNAL_NODE_BOUND) {
-                        bound_state.le_edge_key = -1;
-                    }
-                }
-                if (bound_edge_ptrs.curr_edge_index >= 0) {
-                    InitTempEdgePtrs(bound_edge_ptrs);
-                    rval = readLowerBound(bound_edge_ptrs, data, bound_key, bound_state.le_edge_key);
-                } else {
-                    rval = readBoundFromRootEdge(edge_ptrs, data, root_key, bound_key);
-                }
-            }
-        } else if (rval == MBError::SUCCESS && bound_key) {
-            bound_key->append(reinterpret_cast<const char*>(key), data.match_len);
-        }
+        if (len <= 0)
+            return MBError::OUT_OF_BOUND;
 
-        return rval;
-    }
-
-    int SearchEngine::lowerBoundCore(const uint8_t* key, int len, MBData& data, std::string* bound_key,
-        EdgePtrs& bound_edge_ptrs, BoundSearchState& bound_state, int root_key) const
-    {
         EdgePtrs& edge_ptrs = data.edge_ptrs;
+        BoundSearchState bound_state;
 
-        // Always operate on the main root (no rc_root_offset diversion)
-        int ret = dict.mm.GetRootEdge(0, root_key, edge_ptrs);
-        if (ret != MBError::SUCCESS)
-            return ret;
-        if (edge_ptrs.len_ptr[0] == 0) {
-            return readBoundFromRootEdge(edge_ptrs, data, root_key, bound_key);
-        }
-
-        const uint8_t* key_cursor = key;
-        const uint8_t* edge_label_ptr = nullptr;
-        int edge_len = edge_ptrs.len_ptr[0];
-        int edge_label_len = edge_len - 1;
-
-        int rval = MBError::NOT_EXIST;
+        int rval = dict.mm.GetRootEdge(0, key[0], edge_ptrs);
+        if (rval != MBError::SUCCESS)
+            return rval;
 
-        if (edge_len > LOCAL_EDGE_LEN) {
-            size_t edge_label_off = Get5BInteger(edge_ptrs.ptr);
-            if (dict.mm.ReadData(bound_state.node_buff, edge_label_len, edge_label_off) != edge_label_len)
-                return MBError::READ_ERROR;
-            edge_label_ptr = bound_state.node_buff;
-        } else {
-            edge_label_ptr = edge_ptrs.ptr;
+        if (edge_ptrs.len_ptr[0] != 0) {
+            rval = traverseToLowerBound(key, len, edge_ptrs, data, bound_key, bound_state);
+            if (rval != MBError::NOT_EXIST)
+                return rval;
         }
 
-        if (edge_len < len) {
-            int label_cmp = memcmp(edge_label_ptr, key_cursor + 1, edge_label_len);
-            if (label_cmp != 0) {
-                if (label_cmp < 0) {
-                    bound_state.use_curr_edge = true;
-                    if (bound_key) {
-                        bound_key->push_back(static_cast<char>(key[0]));
-                        bound_key->append(reinterpret_cast<const char*>(edge_label_ptr), edge_label_len);
-                    }
-                }
-                return readBoundFromRootEdge(edge_ptrs, data, root_key, bound_key);
-            }
-
-            len -= edge_len;
-            key_cursor += edge_len;
-            data.match_len += edge_len;
-            rval = traverseToLowerBound(key_cursor, len, edge_ptrs, data, bound_edge_ptrs, bound_state);
-        } else if (edge_len == len) {
-            if (len > 1 && memcmp(edge_label_ptr, key + 1, len - 1) != 0) {
-                if (memcmp(edge_label_ptr, key + 1, len - 1) < 0) {
-                    bound_state.use_curr_edge = true;
-                    if (bound_key) {
-                        bound_key->append(reinterpret_cast<const char*>(key), data.match_len + 1);
-                        bound_key->append(reinterpret_cast<const char*>(edge_label_ptr), len - 1);
-                    }
-                }
-            } else {
-                rval = dict.ReadDataFromEdge(data, edge_ptrs);
-                if (rval == MBError::SUCCESS)
-                    data.match_len += edge_len;
-            }
-        }
+        if (!bound_state.found)
+            return readBoundFromRootEdge(edge_ptrs, data, key[0], bound_key);
 
-        return rval;
+        if (dict.mm.ReadData(edge_ptrs.edge_buff, EDGE_SIZE, bound_state.edge_offset) != EDGE_SIZE)
+            return MBError::READ_ERROR;
+        edge_ptrs.offset = bound_state.edge_offset;
+        if (bound_key != nullptr)
+            bound_key->assign(reinterpret_cast<const char*>(key), bound_state.match_len);
+        if (bound_state.edge_key < 0)
+            return readBoundData(edge_ptrs, data);
+        return readLowerBound(edge_ptrs, data, bound_key, bound_state.edge_key);
     }
 
     int SearchEngine::findPrefixInternal(size_t root_off, const uint8_t* key, int len, MBData& data)
@@ -498,49 +423,38 @@ namespace detail {
         key->push_back((char)edge_key);
         int edge_len_m1 = edge_ptrs.len_ptr[0] - 1;
         if (edge_len_m1 + 1 > LOCAL_EDGE_LEN) {
-            size_t edge_str_off = Get5BInteger(edge_ptrs.ptr);
-            uint8_t* edge_str_buff = dict.mm.GetShmPtr(edge_str_off, edge_len_m1);
-            if (edge_str_buff != nullptr) {
+            uint8_t edge_str_buff[NUM_ALPHABET];
+            if (dict.mm.ReadData(edge_str_buff, edge_len_m1, Get5BInteger(edge_ptrs.ptr)) == edge_len_m1)
                 key->append((const char*)edge_str_buff, edge_len_m1);
-            }
         } else if (edge_len_m1 > 0) {
             key->append(reinterpret_cast<const char*>(edge_ptrs.ptr), edge_len_m1);
         }
     }
 
-    int SearchEngine::readLowerBound(EdgePtrs& edge_ptrs, MBData& data, std::string* bound_key, int le_edge_key) const
+    int SearchEngine::readBoundData(EdgePtrs& edge_ptrs, MBData& data) const
     {
-        int rval;
-        rval = dict.mm.ReadData(edge_ptrs.edge_buff, EDGE_SIZE, edge_ptrs.offset);
-        if (rval != EDGE_SIZE)
-            return MBError::READ_ERROR;
+        // Key-only path: caller only needs bound position/key
+        if (data.options & CONSTS::OPTION_KEY_ONLY)
+            return MBError::SUCCESS;
+        return dict.ReadDataFromEdge(data, edge_ptrs);
+    }
 
-        rval = MBError::SUCCESS;
-        int max_key = -1;
-        while (!(edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF)) {
-            if (bound_key != nullptr && le_edge_key >= 0) {
-                appendEdgeKey(bound_key, le_edge_key, edge_ptrs);
-                le_edge_key = -1;
-            }
-            max_key = -1;
-            rval = dict.mm.NextMaxEdge(edge_ptrs, data.node_buff, data, max_key);
+    // Read the largest entry of the subtree below the edge.
+    int SearchEngine::readLowerBound(EdgePtrs& edge_ptrs, MBData& data, std::string* bound_key, int edge_key) const
+    {
+        int steps = 0;
+        while (true) {
+            if (bound_key != nullptr)
+                appendEdgeKey(bound_key, edge_key, edge_ptrs);
+            if (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF)
+                return readBoundData(edge_ptrs, data);
+            // Prevent pathological loops due to corruption or logic bugs.
+            if (++steps > CONSTS::FIND_TRAVERSAL_LIMIT)
+                return MBError::UNKNOWN_ERROR;
+            int rval = dict.mm.NextMaxEdge(edge_ptrs, data.node_buff, data, edge_key);
             if (rval != MBError::SUCCESS)
-                break;
-            le_edge_key = max_key;
-        }
-
-        if (bound_key != nullptr && le_edge_key >= 0 && (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF)) {
-            appendEdgeKey(bound_key, le_edge_key, edge_ptrs);
-        }
-
-        if (rval == MBError::SUCCESS || rval == MBError::NOT_EXIST) {
-            if (data.options & CONSTS::OPTION_KEY_ONLY) {
-                // Key-only path: caller only needs bound position/key (bound_key handled by caller)
-                return MBError::SUCCESS;
-            }
-            rval = dict.ReadDataFromEdge(data, edge_ptrs);
+                return rval;
         }
-        return rval;
     }
 
     int SearchEngine::readBoundFromRootEdge(EdgePtrs& edge_ptrs, MBData& data,
@@ -553,6 +467,8 @@ namespace detail {
             if (ret != MBError::SUCCESS)
                 return ret;
             if (edge_ptrs.len_ptr[0] != 0) {
+                if (bound_key != nullptr)
+                    bound_key->clear();
                 rval = readLowerBound(edge_ptrs, data, bound_key, i);
                 break;
             }
@@ -560,107 +476,78 @@ namespace detail {
         return rval;
     }
 
-    // Traverse along edges matching the target key while tracking the best
-    // "<= key" fallback candidate on-the-fly. There is no explicit backtracking
-    // in this loop: when a divergence is detected we return NOT_EXIST and let
-    // the caller (lowerBound) jump to the saved candidate pointed by
-    // bound_edge_ptrs or, if none, fall back to root scanning.
-    //
-    // Mechanics:
-    // - NextLowerBoundEdge() does two things per step:
-    //   1) Advances edge_ptrs to the exact next child (if present).
-    //   2) Updates bound_edge_ptrs to the best lesser sibling (or records an
-    //      internal-node match via OPTION_INTERNAL_NODE_BOUND). When a candidate
-    //      is reported we also record its depth (state.le_match_len) and key
-    //      (state.le_edge_key) so the caller can reconstruct bound_key if needed.
-    // - After loading the edge label, we compare its tail (excluding the first
-    //   discriminating byte) with the remaining input. If edge tail < suffix,
-    //   we note use_curr_edge=true so the caller resolves lower-bound within the
-    //   current subtree; otherwise we return and the caller uses the saved candidate.
-    // - If we fully consume the input, or reach a data edge, we read and return.
+    // Traverse along edges matching the target key while tracking the best candidate.
+    // NOT_EXIST is returned if the lower bound is the candidate saved in the state.
     int SearchEngine::traverseToLowerBound(const uint8_t* key, int len, EdgePtrs& edge_ptrs,
-        MBData& data, EdgePtrs& bound_edge_ptrs, BoundSearchState& state) const
+        MBData& data, std::string* bound_key, BoundSearchState& state) const
     {
-        const uint8_t* edge_label_ptr = nullptr;
-
+        int match_len = 0;
         int steps = 0;
         while (true) {
             // Prevent pathological loops due to corruption or logic bugs.
-            if (++steps > CONSTS::FIND_TRAVERSAL_LIMIT) {
+            if (++steps > CONSTS::FIND_TRAVERSAL_LIMIT)
                 return MBError::UNKNOWN_ERROR;
-            }
-            // Ask memory layer to step to the exact child if available and to
-            // update the best "less-than" candidate in bound_edge_ptrs.
-            int candidate_le_key = -1;
-            int status = dict.mm.NextLowerBoundEdge(key, len, edge_ptrs, state.node_buff, data, bound_edge_ptrs, candidate_le_key);
-
-            // Record candidate metadata (depth/key) for bound_key reconstruction.
-            if (state.bound_key && candidate_le_key >= 0) {
-                state.le_match_len = data.match_len;
-                state.le_edge_key = candidate_le_key;
-            }
-
-            // If no exact child, bail out and let the caller pivot to the candidate.
-            if (status != MBError::SUCCESS)
-                return status;
 
             int edge_len = edge_ptrs.len_ptr[0];
             int edge_label_len = edge_len - 1;
+            if (edge_label_len < 0)
+                return MBError::NOT_EXIST; // Malformed edge; treat as not found.
 
             // Load edge label tail (inline or overflow) for comparison.
+            const uint8_t* edge_label_ptr;
             if (edge_len > LOCAL_EDGE_LEN) {
-                size_t edge_label_off = Get5BInteger(edge_ptrs.ptr);
-                if (dict.mm.ReadData(state.node_buff, edge_label_len, edge_label_off) != edge_label_len)
+                if (dict.mm.ReadData(data.node_buff, edge_label_len, Get5BInteger(edge_ptrs.ptr)) != edge_label_len)
                     return MBError::READ_ERROR;
-                edge_label_ptr = state.node_buff;
+                edge_label_ptr = data.node_buff;
             } else {
                 edge_label_ptr = edge_ptrs.ptr;
             }
 
-            // Compare the remainder of the edge label with the remaining key bytes.
-            // Any divergence returns NOT_EXIST to the caller, carrying the best
-            // candidate captured so far in bound_edge_ptrs.
-            if (edge_label_len > 0) {
-                int label_cmp = memcmp(edge_label_ptr, key + 1, std::min(edge_label_len, len - 1));
-                if (label_cmp == 0 && edge_len > len)
-                    label_cmp = 1; // the key is a proper prefix of the edge
-                if (label_cmp != 0) {
-                    // If the edge label is strictly less than the key suffix, signal
-                    // that the current subtree itself is a valid lower-bound pivot.
-                    if (label_cmp < 0) {
-                        state.use_curr_edge = true;
-                        if (state.bound_key) {
-                            state.bound_key->append(reinterpret_cast<const char*>(state.key), data.match_len + 1);
-                            state.bound_key->append(reinterpret_cast<const char*>(edge_label_ptr), edge_label_len);
-                        }
-                    }
-                    return MBError::NOT_EXIST;
-                }
-            } else if (edge_label_len < 0) {
-                // Malformed edge; treat as not found.
+            int key_left = len - match_len;
+            int label_cmp = 0;
+            if (edge_label_len > 0 && key_left > 1)
+                label_cmp = memcmp(edge_label_ptr, key + match_len + 1, std::min(edge_label_len, key_left - 1));
+            if (label_cmp == 0 && edge_len > key_left)
+                label_cmp = 1; // the key is a proper prefix of the edge
+            if (label_cmp > 0)
                 return MBError::NOT_EXIST;
+            if (label_cmp < 0) {
+                // All entries below this edge are less than the key.
+                if (bound_key != nullptr)
+                    bound_key->assign(reinterpret_cast<const char*>(key), match_len);
+                return readLowerBound(edge_ptrs, data, bound_key, key[match_len]);
             }
 
-            // Advance. If we've consumed all input or landed on a data edge,
-            // read and return the value.
-            len -= edge_len;
-            if (len <= 0) {
-                status = dict.ReadDataFromEdge(data, edge_ptrs);
-                if (status == MBError::SUCCESS)
-                    data.match_len += edge_len;
-                return status;
+            match_len += edge_len;
+            bool leaf = edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF;
+            if (leaf || match_len == len) {
+                int rval = dict.ReadDataFromEdge(data, edge_ptrs);
+                if (rval == MBError::SUCCESS) {
+                    data.match_len = match_len;
+                    if (bound_key != nullptr)
+                        bound_key->assign(reinterpret_cast<const char*>(key), match_len);
+                }
+                return rval;
             }
 
-            if (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF) {
-                status = dict.ReadDataFromEdge(data, edge_ptrs);
-                if (status == MBError::SUCCESS)
-                    data.match_len += edge_len;
-                return status;
+            // Advance to the next edge and update the candidate.
+            EdgePtrs bound_edge_ptrs;
+            bound_edge_ptrs.curr_edge_index = -1;
+            int candidate_key = -1;
+            data.options &= ~CONSTS::OPTION_INTERNAL_NODE_BOUND;
+            int rval = dict.mm.NextLowerBoundEdge(key + match_len, len - match_len, edge_ptrs,
+                data.node_buff, data, bound_edge_ptrs, candidate_key);
+            if (rval != MBError::SUCCESS && rval != MBError::NOT_EXIST)
+                return rval;
+            if (bound_edge_ptrs.curr_edge_index >= 0) {
+                state.found = true;
+                state.edge_offset = bound_edge_ptrs.offset;
+                state.match_len = match_len;
+                state.edge_key = (data.options & CONSTS::OPTION_INTERNAL_NODE_BOUND) ? -1 : candidate_key;
+                data.options &= ~CONSTS::OPTION_INTERNAL_NODE_BOUND;
             }
-
-            // Continue traversal along the matched edge.
-            key += edge_len;
-            data.match_len += edge_len;
+            if (rval != MBError::SUCCESS)
+                return rval;
         }
     }
 
diff --git a/src/detail/search_engine.h b/src/detail/search_engine.h
index 6147e2d..5020be9 100644
--- a/src/detail/search_engine.h
+++ b/src/detail/search_engine.h
@@ -13,19 +13,15 @@ class Dict;
 struct MBData;
 
 // Tracks the best "<= target" candidate while descending for lowerBound.
-// - target key: original search key pointer
-// - node buffer: scratch buffer for reading node/edge labels
-// - bound_key: optional output accumulator for reconstructed lower-bound key
-// - le_match_len/le_edge_key: depth and edge key for the best candidate seen
-// - use_curr_edge: signal to pivot into current subtree when label < suffix
+// - edge_offset: the edge of the candidate
+// - match_len: number of key bytes leading to the candidate
+// - edge_key: first byte of the candidate edge if the candidate is the largest entry
+//   of the subtree; -1 if it is the value of the node the edge leads to
 struct BoundSearchState {
-    const uint8_t* key;
-    uint8_t* node_buff;
-    std::string* bound_key;
-
-    int le_match_len = 0;
-    int le_edge_key = -1;
-    bool use_curr_edge = false;
+    size_t edge_offset = 0;
+    int match_len = 0;
+    int edge_key = -1;
+    bool found = false;
 };
 
 namespace detail {
@@ -92,15 +88,14 @@ namespace detail {
 
         // Lower-bound internals
         void appendEdgeKey(std::string* key, int edge_key, const EdgePtrs& edge_ptrs) const;
-        int readLowerBound(EdgePtrs& edge_ptrs, MBData& data, std::string* bound_key, int le_edge_key) const;
+        int readBoundData(EdgePtrs& edge_ptrs, MBData& data) const;
+        int readLowerBound(EdgePtrs& edge_ptrs, MBData& data, std::string* bound_key, int edge_key) const;
         int readBoundFromRootEdge(EdgePtrs& edge_ptrs, MBData& data, int root_key, std::string* bound_key) const;
-        // Core lower-bound traversal from root-key edge until first resolution point.
+        // Lower-bound traversal from the root edge of the key.
         // Returns SUCCESS when value is read, NOT_EXIST when caller should pivot to
-        // saved candidate (bound_edge_ptrs/use_curr_edge), or READ_ERROR on IO error.
-        int lowerBoundCore(const uint8_t* key, int len, MBData& data, std::string* bound_key,
-            EdgePtrs& bound_edge_ptrs, BoundSearchState& bound_state, int root_key) const;
+        // the saved candidate, or READ_ERROR on IO error.
         int traverseToLowerBound(const uint8_t* key, int len, EdgePtrs& edge_ptrs, MBData& data,
-            EdgePtrs& bound_edge_ptrs, BoundSearchState& state) const;
+            std::string* bound_key, BoundSearchState& state) const;
     };
 
 } // namespace detail
-- 
2.43.0


From cc70012ccda343de53f01c5fe9ab1da76e59517e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 21/53] fix: the exception status must not be stored ahead of
 the fields it covers

The compiler moved the plain store of excep_updating_status ahead of the
store of excep_lf_offset, so a writer killed in between was recovered
with the offset of the previous update.
---
 src/db.cpp     | 2 +-
 src/dict.cpp   | 4 ++--
 src/drm_base.h | 3 ++-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index 32defc5..b7cd6d8 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -611,7 +611,7 @@ int DB::PrepareStartupRebuild(const MBConfig& config, bool init_header)
         startup_rebuild_reset_only = true;
         Logger::Log(LOG_LEVEL_WARN,
             "jemalloc startup found exception update status %d for %s; next startup will clear DB to fresh state without recovery",
-            header->excep_updating_status, mb_dir.c_str());
+            header->excep_updating_status.load(), mb_dir.c_str());
         return MBError::SUCCESS;
     }
 
diff --git a/src/dict.cpp b/src/dict.cpp
index d9a40ec..cfd4500 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -1417,7 +1417,7 @@ int Dict::ExceptionRecovery()
     }
 
     Logger::Log(LOG_LEVEL_INFO, "writer was not shutdown gracefully with exception status %d",
-        header->excep_updating_status);
+        header->excep_updating_status.load());
     // Dumper header before running recover
     std::ofstream* logstream = Logger::GetLogStream();
     if (logstream != NULL) {
@@ -1479,7 +1479,7 @@ int Dict::ExceptionRecovery()
         break;
     default:
         Logger::Log(LOG_LEVEL_ERROR, "unknown exception status: %d",
-            header->excep_updating_status);
+            header->excep_updating_status.load());
         rval = MBError::INVALID_ARG;
     }
 #ifdef __LOCK_FREE__
diff --git a/src/drm_base.h b/src/drm_base.h
index 0552e3c..db3c453 100644
--- a/src/drm_base.h
+++ b/src/drm_base.h
@@ -178,7 +178,8 @@ typedef struct _IndexHeader {
     uint16_t eviction_bucket_index;
 
     // temp variables used for abnormal writer terminations
-    int excep_updating_status;
+    // The status must be stored after the fields it covers, even in compiler output.
+    std::atomic<int> excep_updating_status;
     uint8_t excep_buff[MB_EXCEPTION_BUFF_SIZE];
     size_t excep_offset;
     size_t excep_lf_offset;
-- 
2.43.0


From 002890cfa78a66d3bbb2cee4ac8c2967d2ecf432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:31 +0000
Subject: [PATCH 22/53] fix: an update accepted by the shared memory queue must
 be applied, in order

The writer skipped a slot that was taken by a client and not filled yet, so that
the update was applied only when the queue had wrapped around, or never, and
after later updates of the same client. A slot index is now taken only if the
slot is free, and the writer waits for it to be filled; it gives up only if the
client must have exited. The slot is released before the index moves on, so that
a terminated writer does not leave a processed update in the queue.
---
 src/async_writer.cpp | 54 +++++++++++++++++++++-----------------------
 src/async_writer.h   |  2 +-
 src/drm_base.h       |  2 +-
 src/shmq_update.cpp  | 30 ++++++++++++------------
 4 files changed, 43 insertions(+), 45 deletions(-)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index a02514c..d811b7a 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -18,6 +18,7 @@
 
 #include <string.h>
 #include <sys/time.h>
+#include <time.h>
 #include <unistd.h>
 
 #include "async_writer.h"
@@ -164,10 +165,7 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
                 break;
             }
 
-            header->writer_index++;
-            node_ptr->num_reader.store(0, std::memory_order_release);
-            node_ptr->type = MABAIN_ASYNC_TYPE_NONE;
-            node_ptr->in_use.store(false, std::memory_order_release);
+            ReleaseSlot(node_ptr, header->writer_index);
             mbd.Clear();
             count++;
         } else {
@@ -186,21 +184,17 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
     return MBError::SUCCESS;
 }
 
-uint32_t AsyncWriter::NextShmSlot(uint32_t windex, uint32_t qindex)
+// Free the slot first: if the writer is terminated in between, the next writer must
+// not find the slot in use again after the index has moved on.
+void AsyncWriter::ReleaseSlot(AsyncNode* node_ptr, uint32_t windex)
 {
-    int cnt = 0;
-    while (windex != qindex) {
-        if (queue[windex % header->async_queue_size].in_use.load(std::memory_order_consume))
-            break;
-        if (++cnt > header->async_queue_size) {
-            windex = qindex;
-            break;
-        }
-
-        windex++;
-    }
-
-    return windex;
+    bool in_order = windex != header->queue_index.load(std::memory_order_acquire);
+    node_ptr->num_reader.store(0, std::memory_order_release);
+    node_ptr->type = MABAIN_ASYNC_TYPE_NONE;
+    node_ptr->in_use.store(false, std::memory_order_release);
+    // A slot filled after the writer gave up on it was already counted.
+    if (in_order)
+        header->writer_index.store(windex + 1, std::memory_order_release);
 }
 
 void* AsyncWriter::async_writer_thread()
@@ -224,9 +218,11 @@ void* AsyncWriter::async_writer_thread()
     }
 
     while (!stop_processing) {
-        node_ptr = &queue[header->writer_index % header->async_queue_size];
+        uint32_t windex = header->writer_index;
+        node_ptr = &queue[windex % header->async_queue_size];
 
         skip = false;
+        timespec taken = {0, 0};
         while (!node_ptr->in_use.load(std::memory_order_consume)) {
             if (stop_processing) {
                 skip = true;
@@ -236,12 +232,17 @@ void* AsyncWriter::async_writer_thread()
 #define __ASYNC_THREAD_SLEEP_TIME 1000
             mbp.Wait(__ASYNC_THREAD_SLEEP_TIME);
 
-            auto windex = header->writer_index;
-            auto qindex = header->queue_index.load(std::memory_order_consume);
-            if (windex != qindex) {
-                // Reader process may have exited unexpectedly. Recover index.
+            if (windex == header->queue_index.load(std::memory_order_acquire) || node_ptr->in_use.load(std::memory_order_acquire))
+                continue;
+            // The slot was taken and is being filled. If this does not end, the process
+            // filling it may have exited unexpectedly. Recover index.
+            timespec now;
+            clock_gettime(CLOCK_MONOTONIC, &now);
+            if (taken.tv_sec == 0)
+                taken = now;
+            if (now.tv_sec - taken.tv_sec > MB_ASYNC_SHM_LOCK_TMOUT) {
                 skip = true;
-                header->writer_index = NextShmSlot(windex, qindex);
+                header->writer_index = windex + 1;
                 break;
             }
         }
@@ -316,10 +317,7 @@ void* AsyncWriter::async_writer_thread()
             break;
         }
 
-        header->writer_index++;
-        node_ptr->num_reader.store(0, std::memory_order_release);
-        node_ptr->type = MABAIN_ASYNC_TYPE_NONE;
-        node_ptr->in_use.store(false, std::memory_order_release);
+        ReleaseSlot(node_ptr, windex);
 
         if (rval != MBError::SUCCESS) {
             Logger::Log(LOG_LEVEL_DEBUG, "failed to run update %d: %s",
diff --git a/src/async_writer.h b/src/async_writer.h
index 56f6db9..1979600 100644
--- a/src/async_writer.h
+++ b/src/async_writer.h
@@ -48,7 +48,7 @@ private:
     AsyncNode* AcquireSlot();
     int PrepareSlot(AsyncNode* node_ptr) const;
     void* async_writer_thread();
-    uint32_t NextShmSlot(uint32_t windex, uint32_t qindex);
+    void ReleaseSlot(AsyncNode* node_ptr, uint32_t windex);
 
     // db pointer
     DB* db;
diff --git a/src/drm_base.h b/src/drm_base.h
index db3c453..a61c817 100644
--- a/src/drm_base.h
+++ b/src/drm_base.h
@@ -209,7 +209,7 @@ typedef struct _IndexHeader {
     // multi-process async queue
     int async_queue_size;
     std::atomic<uint32_t> queue_index;
-    uint32_t writer_index;
+    std::atomic<uint32_t> writer_index;
     std::atomic<uint32_t> rc_flag;
 
     // Embedded prefix cache (fixed capacity, set at DB initialization)
diff --git a/src/shmq_update.cpp b/src/shmq_update.cpp
index 6bd1cdb..156d23f 100644
--- a/src/shmq_update.cpp
+++ b/src/shmq_update.cpp
@@ -114,21 +114,21 @@ int Dict::SHMQ_CollectResource(int64_t m_index_rc_size,
 
 AsyncNode* Dict::SHMQ_AcquireSlot(int& err) const
 {
-    uint32_t index = header->queue_index.fetch_add(1, std::memory_order_release);
-    AsyncNode* node_ptr = queue + (index % header->async_queue_size);
-
-    if (node_ptr->in_use.load(std::memory_order_consume)) {
-        // This slot is being processed by writer.
-        err = MBError::TRY_AGAIN;
-        return nullptr;
-    }
-
-    uint16_t nreader = node_ptr->num_reader.fetch_add(1, std::memory_order_release);
-    if (nreader != 0) {
-        // This slot is being processed by another reader.
-        err = MBError::TRY_AGAIN;
-        return nullptr;
-    }
+    uint32_t index = header->queue_index.load(std::memory_order_acquire);
+    AsyncNode* node_ptr;
+
+    // An index must only be taken if its slot can be filled: the writer processes the
+    // slots in the order of the index and waits for a slot that was taken.
+    do {
+        node_ptr = queue + (index % header->async_queue_size);
+        if (index - header->writer_index.load(std::memory_order_acquire) >= (uint32_t)header->async_queue_size
+            || node_ptr->in_use.load(std::memory_order_acquire)) {
+            // This slot has not been processed by writer.
+            err = MBError::TRY_AGAIN;
+            return nullptr;
+        }
+    } while (!header->queue_index.compare_exchange_weak(index, index + 1, std::memory_order_acq_rel,
+        std::memory_order_acquire));
 
     return node_ptr;
 }
-- 
2.43.0


From 29bc3a36b3a9ba53f0850eb56ee279e02ef6454d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:18 +0000
Subject: [PATCH 23/53] fix: an update in the process of the async writer must
 not overtake queued updates

---
 src/async_writer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index d811b7a..63c3105 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -370,6 +370,11 @@ int AsyncWriter::AddWithLock(const char* key, int len, MBData& mbdata, bool over
     using Ms = std::chrono::milliseconds;
     if (writer_lock.try_lock_for(Ms(1000))) {
         int rval;
+        // must not overtake the updates that are already in the queue
+        if (header->queue_index.load(std::memory_order_acquire) != header->writer_index.load(std::memory_order_acquire)) {
+            writer_lock.unlock();
+            return MBError::TRY_AGAIN;
+        }
         try {
             rval = dict->Add(reinterpret_cast<const uint8_t*>(key), len, mbdata, overwrite);
         } catch (int error) {
-- 
2.43.0


From 8de3a9317a5e1c0aa6bb57c536491a21e4069a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:58 +0000
Subject: [PATCH 24/53] fix: entries added during an asynchronous resource
 collection must not be lost

The iteration over the rc tree went on in the main tree after the first entry since
its options were reset, and tasks processed in between were overwritten by older
entries of the rc tree.
---
 src/mb_rc.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index 07a6fcb..6568293 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -1018,18 +1018,18 @@ void ResourceCollection::ProcessRCTree()
 {
     Logger::Log(LOG_LEVEL_INFO, "resource collection done, traversing the rc tree %llu entries", header->rc_count);
 
-    int count = 0;
+    // The tasks in the queue are newer than the entries of the rc tree. They must not be
+    // processed before all these entries are added.
     int rval;
     DB db_itr(db_ref);
     for (DB::iterator iter = db_itr.begin(false, true); iter != db_itr.end(); ++iter) {
+        // The iterator needs its options to go on in the rc tree.
+        int iter_options = iter.value.options;
         iter.value.options = 0;
         rval = dict->Add((const uint8_t*)iter.key.data(), iter.key.size(), iter.value, true);
+        iter.value.options = iter_options;
         if (rval != MBError::SUCCESS)
             Logger::Log(LOG_LEVEL_WARN, "failed to add: %s", MBError::get_error_str(rval));
-        if (count++ > RC_TASK_CHECK) {
-            count = 0;
-            async_writer_ptr->ProcessTask(NUM_ASYNC_TASK, false);
-        }
 
         if (header->m_index_offset > rc_index_offset || header->m_data_offset > rc_data_offset) {
             Logger::Log(LOG_LEVEL_ERROR, "not enough space for insertion: %llu, %llu",
-- 
2.43.0


From 355e30ae52e2d134e34e6cac32dc56a1633a7cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:58 +0000
Subject: [PATCH 25/53] fix: updates queued during an asynchronous resource
 collection must not be dropped

Removals were dropped while the collection or the LRU eviction was running, and an
addition without overwrite replaced an existing entry.
---
 src/async_writer.cpp | 54 ++++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index 63c3105..d00c344 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -22,6 +22,7 @@
 #include <unistd.h>
 
 #include "async_writer.h"
+#include "detail/search_engine.h"
 #include "dict.h"
 #include "error.h"
 #include "integer_4b_5b.h"
@@ -106,10 +107,27 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
         node_ptr = &queue[header->writer_index % header->async_queue_size];
 
         if (node_ptr->in_use.load(std::memory_order_consume)) {
+            // Removing entries during rc is currently not supported, since the entry may
+            // still exist in the rc root tree and modifying buffers in high end causes an
+            // exception in DictMem::WriteData. These tasks and the following ones must wait
+            // until rc is finished. See https://github.com/chxdeng/mabain/issues/21
+            if (rc_mode && (node_ptr->type == MABAIN_ASYNC_TYPE_REMOVE || node_ptr->type == MABAIN_ASYNC_TYPE_REMOVE_ALL))
+                break;
+
             switch (node_ptr->type) {
             case MABAIN_ASYNC_TYPE_ADD:
-                if (rc_mode)
+                if (rc_mode) {
+                    // The rc tree holds new entries only. The other entries are checked here.
+                    if (!node_ptr->overwrite) {
+                        MBData curr;
+                        rval = detail::SearchEngine(*dict).find((const uint8_t*)node_ptr->key, node_ptr->key_len, curr);
+                        if (rval == MBError::SUCCESS)
+                            rval = MBError::IN_DICT;
+                        if (rval != MBError::NOT_EXIST)
+                            break;
+                    }
                     mbd.options = CONSTS::OPTION_RC_MODE;
+                }
                 mbd.buff = (uint8_t*)node_ptr->data;
                 mbd.data_len = node_ptr->data_len;
                 try {
@@ -121,27 +139,23 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
                 }
                 break;
             case MABAIN_ASYNC_TYPE_REMOVE:
-                // FIXME
-                // Removing entries during rc is currently not supported.
-                // The index or data index could have been reset in fucntion ResourceColletion::Finish.
-                // However, the deletion may be run for some entry which still exist in the rc root tree.
-                // This requires modifying buffer in high end, where the offset for writing is greather than
-                // header->m_index_offset. This causes exception thrown from DictMem::WriteData.
-                // Note this is not a problem for Dict::Add since Add does not modify buffers in high end.
-                // This problem will be fixed when resolving issue: https://github.com/chxdeng/mabain/issues/21
-                rval = MBError::SUCCESS;
+                mbd.options |= CONSTS::OPTION_FIND_AND_STORE_PARENT;
+                try {
+                    rval = dict->Remove((uint8_t*)node_ptr->key, node_ptr->key_len, mbd);
+                } catch (int err) {
+                    rval = err;
+                    Logger::Log(LOG_LEVEL_ERROR, "dict->Remmove throws error %s",
+                        MBError::get_error_str(err));
+                }
+                mbd.options &= ~CONSTS::OPTION_FIND_AND_STORE_PARENT;
                 break;
             case MABAIN_ASYNC_TYPE_REMOVE_ALL:
-                if (!rc_mode) {
-                    try {
-                        rval = dict->RemoveAll();
-                    } catch (int err) {
-                        Logger::Log(LOG_LEVEL_ERROR, "dict->Add throws error %s",
-                            MBError::get_error_str(err));
-                        rval = err;
-                    }
-                } else {
-                    rval = MBError::SUCCESS;
+                try {
+                    rval = dict->RemoveAll();
+                } catch (int err) {
+                    Logger::Log(LOG_LEVEL_ERROR, "dict->Add throws error %s",
+                        MBError::get_error_str(err));
+                    rval = err;
                 }
                 break;
             case MABAIN_ASYNC_TYPE_RC:
-- 
2.43.0


From 511a52398d63d885503524c522706ec0941b4520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:13 +0000
Subject: [PATCH 26/53] fix: a process updating the database must not be
 terminated by SIGPIPE

The writer may close its pipe between the poll and the write of the client.
---
 src/mb_pipe.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/mb_pipe.cpp b/src/mb_pipe.cpp
index d50bc9c..ac75560 100644
--- a/src/mb_pipe.cpp
+++ b/src/mb_pipe.cpp
@@ -18,8 +18,11 @@
 
 #include <fcntl.h>
 #include <poll.h>
+#include <pthread.h>
+#include <signal.h>
 #include <string.h>
 #include <sys/stat.h>
+#include <time.h>
 #include <unistd.h>
 
 #include "error.h"
@@ -163,7 +166,23 @@ int MBPipe::Signal()
         return MBError::NO_RESOURCE;
     }
 
-    if (write(fd, "", 1) < 0) {
+    // The writer may have gone since the poll. Do not let SIGPIPE terminate the process.
+    sigset_t pipe_set, old_set;
+    sigemptyset(&pipe_set);
+    sigaddset(&pipe_set, SIGPIPE);
+    pthread_sigmask(SIG_BLOCK, &pipe_set, &old_set);
+    ssize_t nwrite = write(fd, "", 1);
+    int write_errno = errno;
+#ifndef __APPLE__
+    if (nwrite < 0 && write_errno == EPIPE && !sigismember(&old_set, SIGPIPE)) {
+        const struct timespec no_wait = { 0, 0 };
+        sigtimedwait(&pipe_set, NULL, &no_wait);
+    }
+#endif
+    pthread_sigmask(SIG_SETMASK, &old_set, NULL);
+
+    if (nwrite < 0) {
+        errno = write_errno;
         if (!(errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR)) {
             Logger::Log(LOG_LEVEL_DEBUG, "failed to signal async writer errno: %s",
                 strerror(errno));
-- 
2.43.0


From 275cf2d51704d96514c8f5befa3c6779b5a57a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:03 +0000
Subject: [PATCH 27/53] fix: a process must not add to another database through
 its async writer

AsyncWriter::GetInstance() returned the last async writer created in the
process: DB::Add on a handle of a different database was applied to the
wrong database, and after the writer was closed the pointer was dangling.
---
 src/async_writer.cpp | 7 +++++++
 src/async_writer.h   | 1 +
 src/db.cpp           | 2 +-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index d00c344..b6d120d 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -45,6 +45,11 @@ AsyncWriter* AsyncWriter::GetInstance()
     return writer_instance;
 }
 
+bool AsyncWriter::IsWriterOf(const std::string& db_dir) const
+{
+    return db->GetDBDir() == db_dir;
+}
+
 AsyncWriter::AsyncWriter(DB* db_ptr)
     : db(db_ptr)
     , tid(0)
@@ -79,6 +84,8 @@ AsyncWriter::AsyncWriter(DB* db_ptr)
 
 AsyncWriter::~AsyncWriter()
 {
+    if (writer_instance == this)
+        writer_instance = NULL;
 }
 
 int AsyncWriter::StopAsyncThread()
diff --git a/src/async_writer.h b/src/async_writer.h
index 1979600..c00bb56 100644
--- a/src/async_writer.h
+++ b/src/async_writer.h
@@ -41,6 +41,7 @@ public:
 
     static AsyncWriter* CreateInstance(DB* db_ptr);
     static AsyncWriter* GetInstance();
+    bool IsWriterOf(const std::string& db_dir) const;
 
 private:
     AsyncWriter(DB* db_ptr);
diff --git a/src/db.cpp b/src/db.cpp
index b7cd6d8..c529772 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -1023,7 +1023,7 @@ int DB::Add(const char* key, int len, MBData& mbdata, bool overwrite)
         }
     } else {
         AsyncWriter* awr = AsyncWriter::GetInstance();
-        if (awr) {
+        if (awr && awr->IsWriterOf(mb_dir)) {
             try {
                 rval = awr->AddWithLock(key, len, mbdata, overwrite);
                 if (!overwrite && rval == MBError::IN_DICT)
-- 
2.43.0


From b4659824969966a306fec84886c21a68ebe9f7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:03 +0000
Subject: [PATCH 28/53] fix: a refused writer must not disturb the writer that
 has the database open

Closing a handle whose open failed with WRITER_EXIST removed the writer
registration of the process: the next open for writing in that process
succeeded (a process is not blocked by its own file lock) while the first
writer was still working. Only the handle that registered releases.
---
 src/db.cpp | 8 ++++++--
 src/db.h   | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index c529772..3b1eeb0 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -155,10 +155,11 @@ int DB::Close()
     rebuild_guard_file.reset();
 
     status = MBError::DB_CLOSED;
-    if (options & CONSTS::ACCESS_MODE_WRITER) {
+    if (writer_registered) {
         release_file_lock(writer_lock_fd);
         std::string lock_file = mb_dir + "_lock";
         ResourcePool::getInstance().RemoveResourceByPath(lock_file);
+        writer_registered = false;
     }
     Logger::Log(LOG_LEVEL_DEBUG, "connector %u disconnected from DB", identifier);
     return rval;
@@ -406,9 +407,12 @@ void DB::PreCheckDB(const MBConfig& config, bool& init_header, bool& update_head
             if (!(config.options & CONSTS::MEMORY_ONLY_MODE)) {
                 // process check by file lock
                 writer_lock_fd = acquire_file_lock_wait_n(lock_file, 1);
-                if (writer_lock_fd < 0)
+                if (writer_lock_fd < 0) {
+                    ResourcePool::getInstance().RemoveResourceByPath(lock_file);
                     status = MBError::WRITER_EXIST;
+                }
             }
+            writer_registered = (status != MBError::WRITER_EXIST);
         } else {
             status = MBError::WRITER_EXIST;
         }
diff --git a/src/db.h b/src/db.h
index 0fa9d68..8732f2e 100644
--- a/src/db.h
+++ b/src/db.h
@@ -268,6 +268,8 @@ private:
     AsyncWriter* async_writer;
 
     int writer_lock_fd;
+    // this handle owns the writer registration of the database in this process
+    bool writer_registered = false;
 };
 
 }
-- 
2.43.0


From 5d6eb8fbed2964f80cb9f397238b09519a303514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:23 +0000
Subject: [PATCH 29/53] fix: a synchronous writer must make the backup itself

---
 src/db.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db.cpp b/src/db.cpp
index 3b1eeb0..cfc9f30 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -1169,7 +1169,7 @@ int DB::Backup(const char* bk_dir)
         return MBError::NOT_ALLOWED;
 
     try {
-        if (async_writer == NULL && (options & CONSTS::ASYNC_WRITER_MODE)) {
+        if (async_writer == NULL && (options & CONSTS::ACCESS_MODE_WRITER)) {
             DBBackup bk(*this);
             rval = bk.Backup(bk_dir);
         } else {
-- 
2.43.0


From 6c5f6405eec5ecb71241bee92b111d0949edc95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:41 +0000
Subject: [PATCH 30/53] fix: the asynchronous writer must make every requested
 backup, from an unchanging database

---
 src/async_writer.cpp | 24 +++++-------------------
 src/async_writer.h   |  1 -
 2 files changed, 5 insertions(+), 20 deletions(-)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index b6d120d..4bf66fe 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -73,7 +73,6 @@ AsyncWriter::AsyncWriter(DB* db_ptr)
     queue = dict->GetAsyncQueuePtr();
     header->rc_flag.store(0, std::memory_order_release);
 
-    rc_backup_dir = NULL;
     // start the thread
     if (pthread_create(&tid, NULL, async_thread_wrapper, this) != 0) {
         Logger::Log(LOG_LEVEL_ERROR, "failed to create async thread");
@@ -120,6 +119,9 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
             // until rc is finished. See https://github.com/chxdeng/mabain/issues/21
             if (rc_mode && (node_ptr->type == MABAIN_ASYNC_TYPE_REMOVE || node_ptr->type == MABAIN_ASYNC_TYPE_REMOVE_ALL))
                 break;
+            // A backup is made from a database that is not being changed, by the main loop.
+            if (node_ptr->type == MABAIN_ASYNC_TYPE_BACKUP)
+                break;
 
             switch (node_ptr->type) {
             case MABAIN_ASYNC_TYPE_ADD:
@@ -172,15 +174,6 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
             case MABAIN_ASYNC_TYPE_NONE:
                 rval = MBError::SUCCESS;
                 break;
-            case MABAIN_ASYNC_TYPE_BACKUP:
-                // clean up existing backup dir varibale buffer.
-                if (rc_backup_dir != NULL)
-                    free(rc_backup_dir);
-                rc_backup_dir = (char*)malloc(node_ptr->data_len + 1);
-                memcpy(rc_backup_dir, node_ptr->data, node_ptr->data_len);
-                rc_backup_dir[node_ptr->data_len] = '\0';
-                rval = MBError::SUCCESS;
-                break;
             default:
                 rval = MBError::INVALID_ARG;
                 break;
@@ -326,12 +319,14 @@ void* AsyncWriter::async_writer_thread()
             rval = MBError::SUCCESS;
             break;
         case MABAIN_ASYNC_TYPE_BACKUP:
+            writer_lock.lock();
             try {
                 DBBackup mbbk(*db);
                 rval = mbbk.Backup((const char*)node_ptr->data);
             } catch (int error) {
                 rval = error;
             }
+            writer_lock.unlock();
             break;
         default:
             rval = MBError::INVALID_ARG;
@@ -348,7 +343,6 @@ void* AsyncWriter::async_writer_thread()
         mbd.Clear();
 
         if (header->rc_flag.load(std::memory_order_consume) == 1) {
-            rval = MBError::SUCCESS;
             writer_lock.lock();
             try {
                 ResourceCollection rc = ResourceCollection(*db);
@@ -356,19 +350,11 @@ void* AsyncWriter::async_writer_thread()
             } catch (int error) {
                 if (error != MBError::RC_SKIPPED) {
                     Logger::Log(LOG_LEVEL_WARN, "rc failed :%s", MBError::get_error_str(error));
-                    rval = error;
                 }
             }
             writer_lock.unlock();
 
             header->rc_flag.store(0, std::memory_order_release);
-            if (rc_backup_dir != NULL) {
-                if (rval == MBError::SUCCESS) {
-                    dict->SHMQ_Backup(rc_backup_dir);
-                }
-                free(rc_backup_dir);
-                rc_backup_dir = NULL;
-            }
         }
     }
 
diff --git a/src/async_writer.h b/src/async_writer.h
index c00bb56..3f7bb3f 100644
--- a/src/async_writer.h
+++ b/src/async_writer.h
@@ -63,7 +63,6 @@ private:
     IndexHeader* header;
 
     bool is_rc_running;
-    char* rc_backup_dir;
 
     std::timed_mutex writer_lock;
     static AsyncWriter* writer_instance;
-- 
2.43.0


From 0e0ac3580b4ef7b4bbf3d568e2bee5f555d60c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:04 +0000
Subject: [PATCH 31/53] fix: a backup must be complete and report every failure

---
 src/mb_backup.cpp | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/mb_backup.cpp b/src/mb_backup.cpp
index a6a5525..cf2f838 100644
--- a/src/mb_backup.cpp
+++ b/src/mb_backup.cpp
@@ -16,10 +16,13 @@
 
 // @author Shridhar Bhalerao <shbhaler@cisco.com>
 
+#include <errno.h>
 #include <fstream>
 #include <iostream>
 #include <limits.h>
+#include <memory>
 #include <sstream>
+#include <stdlib.h>
 
 #include "integer_4b_5b.h"
 #include "mb_backup.h"
@@ -53,35 +56,33 @@ void DBBackup::copy_file(const std::string& src_path, const std::string& dest_pa
 
     if ((fp_read = fopen(src_path.c_str(), "rb")) == NULL) {
         Logger::Log(LOG_LEVEL_ERROR, "Backup failed: Could not open file %s", src_path.c_str());
-        throw MBError::OPEN_FAILURE;
+        throw (int)MBError::OPEN_FAILURE;
     }
     if ((fp_write = fopen(dest_path.c_str(), "wb")) == NULL) {
         fclose(fp_read);
         Logger::Log(LOG_LEVEL_ERROR, "Backup failed: Could not open file %s", dest_path.c_str());
-        throw MBError::OPEN_FAILURE;
+        throw (int)MBError::OPEN_FAILURE;
     }
 
     int rval = MBError::SUCCESS;
-    int read_count, write_count;
-
-    while (true) {
-        read_count = fread(buffer, buffer_size, 1, fp_read);
+    size_t read_count;
 
-        if (feof(fp_read) && read_count == 0)
-            break;
-        if (read_count != 1) {
+    do {
+        // the last chunk may be a partial one
+        read_count = fread(buffer, 1, buffer_size, fp_read);
+        if (ferror(fp_read)) {
             rval = MBError::READ_ERROR;
             break;
         }
-
-        write_count = fwrite(buffer, buffer_size, 1, fp_write);
-        if (write_count != 1) {
+        if (fwrite(buffer, 1, read_count, fp_write) != read_count) {
             rval = MBError::WRITE_ERROR;
             break;
         }
-    }
+    } while (read_count == (size_t)buffer_size);
     fclose(fp_read);
-    fclose(fp_write);
+    // buffered data may be written here
+    if (fclose(fp_write) != 0 && rval == MBError::SUCCESS)
+        rval = MBError::WRITE_ERROR;
 
     if (rval != MBError::SUCCESS) {
         Logger::Log(LOG_LEVEL_ERROR, "Backup failed %s", MBError::get_error_str(rval));
@@ -115,7 +116,8 @@ int DBBackup::Backup(const char* bk_dir)
     num_data_files = (header->m_data_offset / header->data_block_size) + 1;
     num_index_files = (header->m_index_offset / header->index_block_size) + 1;
 
-    char* buffer = (char*)malloc(BLOCK_SIZE_ALIGN);
+    std::unique_ptr<char, decltype(&free)> copy_buffer((char*)malloc(BLOCK_SIZE_ALIGN), &free);
+    char* buffer = copy_buffer.get();
     if (buffer == NULL)
         throw (int)MBError::NO_MEMORY;
 
@@ -129,6 +131,9 @@ int DBBackup::Backup(const char* bk_dir)
     for (int i = 0; i < num_data_files; i++) {
         read_file_path = read_file_path_base + std::to_string(i);
         write_file_path = write_file_path_base + std::to_string(i);
+        // The last file is created when something is stored in it.
+        if (i == num_data_files - 1 && access(read_file_path.c_str(), F_OK) != 0 && errno == ENOENT)
+            break;
         copy_file(read_file_path, write_file_path, buffer, BLOCK_SIZE_ALIGN);
     }
 
@@ -137,6 +142,8 @@ int DBBackup::Backup(const char* bk_dir)
     for (int i = 0; i < num_index_files; i++) {
         read_file_path = read_file_path_base + std::to_string(i);
         write_file_path = write_file_path_base + std::to_string(i);
+        if (i == num_index_files - 1 && access(read_file_path.c_str(), F_OK) != 0 && errno == ENOENT)
+            break;
         copy_file(read_file_path, write_file_path, buffer, BLOCK_SIZE_ALIGN);
     }
 
@@ -145,8 +152,6 @@ int DBBackup::Backup(const char* bk_dir)
     // header is size of page_size
     copy_file(read_file_path, write_file_path, buffer, RollableFile::page_size);
 
-    free(buffer);
-
     // reset number readers/writers in backed up DB.
     int rval;
     DB db = DB(bk_dir, CONSTS::ACCESS_MODE_READER, 0, 0);
-- 
2.43.0


From a7c0b8094a1b3ce36d0a6f74c4a8fc580d2a457e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:16 +0000
Subject: [PATCH 32/53] fix: a new database must not take over the queue of a
 deleted one

---
 src/dict.cpp          |  4 ++++
 src/shm_queue_mgr.cpp | 21 ++++++++++++++++-----
 src/shm_queue_mgr.h   |  2 ++
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index cfd4500..c4221ac 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -68,6 +68,10 @@ Dict::Dict(const std::string& mbdir, bool init_header, int datasize,
     }
 
     if (!(db_options & CONSTS::READ_ONLY_DB)) {
+        // A database created before may have had the same queue ID. A new database must
+        // not take over what was left in that queue.
+        if (init_header && !(db_options & CONSTS::MEMORY_ONLY_MODE))
+            ShmQueueMgr::RemoveFile(header->shm_queue_id, queue_dir);
         // initialize shared memory queue
         slaq = qmgr.CreateFile(header->shm_queue_id, queue_size, queue_dir, db_options);
         queue = slaq->queue;
diff --git a/src/shm_queue_mgr.cpp b/src/shm_queue_mgr.cpp
index b607efe..229f887 100644
--- a/src/shm_queue_mgr.cpp
+++ b/src/shm_queue_mgr.cpp
@@ -18,6 +18,7 @@
 
 #include <iostream>
 #include <sys/stat.h>
+#include <unistd.h>
 
 #include "error.h"
 #include "logger.h"
@@ -42,16 +43,26 @@ void ShmQueueMgr::InitShmObjects(shm_lock_and_queue* slaq, int queue_size)
     slaq->initialized = 1;
 }
 
+std::string ShmQueueMgr::GetFilePath(uint64_t qid, const char* queue_dir)
+{
+    if (queue_dir != NULL)
+        return std::string(queue_dir) + "/_mabain_q" + std::to_string(qid);
+    return "/dev/shm/_mabain_q" + std::to_string(qid);
+}
+
+void ShmQueueMgr::RemoveFile(uint64_t qid, const char* queue_dir)
+{
+    std::string qfile_path = GetFilePath(qid, queue_dir);
+    ResourcePool::getInstance().RemoveResourceByPath(qfile_path);
+    unlink(qfile_path.c_str());
+}
+
 shm_lock_and_queue* ShmQueueMgr::CreateFile(uint64_t qid, int qsize,
     const char* queue_dir, int options)
 {
     if (qsize > MB_MAX_NUM_SHM_QUEUE_NODE)
         throw (int)MBError::INVALID_SIZE;
-    std::string qfile_path;
-    if (queue_dir != NULL)
-        qfile_path = std::string(queue_dir) + "/_mabain_q" + std::to_string(qid);
-    else
-        qfile_path = "/dev/shm/_mabain_q" + std::to_string(qid);
+    std::string qfile_path = GetFilePath(qid, queue_dir);
 
     bool init_queue = false;
     if (access(qfile_path.c_str(), F_OK))
diff --git a/src/shm_queue_mgr.h b/src/shm_queue_mgr.h
index 4cae61f..ccb0560 100644
--- a/src/shm_queue_mgr.h
+++ b/src/shm_queue_mgr.h
@@ -61,6 +61,8 @@ public:
     ShmQueueMgr();
     ~ShmQueueMgr();
     shm_lock_and_queue* CreateFile(uint64_t qid, int qsize, const char* queue_dir, int options);
+    static std::string GetFilePath(uint64_t qid, const char* queue_dir);
+    static void RemoveFile(uint64_t qid, const char* queue_dir);
     void PrintStats(std::ostream& out_stream, const IndexHeader* hdr) const;
 
 private:
-- 
2.43.0


From 555ea6b06c78ea2a438677b5a2564fbcb82b6624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:42 +0000
Subject: [PATCH 33/53] fix: a backup must be a database of its own, not share
 the queue of the original

---
 src/dict.cpp      |  2 ++
 src/dict.h        |  5 +++
 src/mb_backup.cpp | 81 +++++++++++++++++++++++++++++++++++++----------
 src/mb_backup.h   |  1 +
 4 files changed, 72 insertions(+), 17 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index c4221ac..80686b6 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -43,6 +43,8 @@ Dict::Dict(const std::string& mbdir, bool init_header, int datasize,
     : DRMBase(mbdir, db_options, false)
     , mm(mbdir, init_header, memsize_index, db_options, block_sz_idx, max_num_index_blk, queue_size)
     , queue(NULL)
+    , has_queue_dir(queue_dir != NULL)
+    , queue_dir_(has_queue_dir ? queue_dir : "")
 {
     status = MBError::NOT_INITIALIZED;
     reader_rc_off = 0;
diff --git a/src/dict.h b/src/dict.h
index c62b534..57fbc7a 100644
--- a/src/dict.h
+++ b/src/dict.h
@@ -77,6 +77,9 @@ public:
     // Delete all entries
     int RemoveAll();
 
+    // directory of the queue file, NULL for the default one
+    const char* GetQueueDir() const { return has_queue_dir ? queue_dir_.c_str() : NULL; }
+
     // multiple-process updates using shared memory queue
     int SHMQ_Add(const char* key, int key_len, const char* data, int data_len,
         bool overwrite);
@@ -168,6 +171,8 @@ private:
 
     size_t reader_rc_off;
     AsyncNode* queue;
+    bool has_queue_dir;
+    std::string queue_dir_;
     shm_lock_and_queue* slaq;
     MBPipe mbp;
     // Hold a reference to shared memory queue file so that the async thread can access it during process exit
diff --git a/src/mb_backup.cpp b/src/mb_backup.cpp
index cf2f838..7129f77 100644
--- a/src/mb_backup.cpp
+++ b/src/mb_backup.cpp
@@ -19,14 +19,19 @@
 #include <errno.h>
 #include <fstream>
 #include <iostream>
-#include <limits.h>
 #include <memory>
 #include <sstream>
+#include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
+#include <unistd.h>
 
 #include "integer_4b_5b.h"
 #include "mb_backup.h"
 #include "mb_data.h"
+#include "resource_pool.h"
+#include "shm_queue_mgr.h"
+#include "util/utils.h"
 
 namespace mabain {
 
@@ -90,6 +95,63 @@ void DBBackup::copy_file(const std::string& src_path, const std::string& dest_pa
     }
 }
 
+// The backup is a database of its own: it has no writer and readers yet, and it must not
+// share the queue with the original database. The header is created at last so that
+// an incomplete backup is never considered a valid database.
+void DBBackup::create_header(const std::string& bk_dir, char* buffer)
+{
+    std::string header_path = bk_dir + "/_mabain_h";
+    std::string tmp_path = header_path + "_tmp";
+
+    memset(buffer, 0, RollableFile::page_size);
+    memcpy(buffer, reinterpret_cast<const void*>(header), sizeof(IndexHeader));
+
+    FILE* fp = fopen(tmp_path.c_str(), "wb");
+    if (fp == NULL) {
+        Logger::Log(LOG_LEVEL_ERROR, "Backup failed: Could not open file %s", tmp_path.c_str());
+        throw (int)MBError::OPEN_FAILURE;
+    }
+
+    IndexHeader* bk_header = reinterpret_cast<IndexHeader*>(buffer);
+    bk_header->num_writer = 0;
+    bk_header->num_reader = 0;
+    bk_header->shm_queue_id = get_file_inode(tmp_path);
+    bk_header->queue_index.store(0, std::memory_order_relaxed);
+    bk_header->writer_index.store(0, std::memory_order_relaxed);
+    bk_header->rc_flag.store(0, std::memory_order_relaxed);
+    bk_header->lock_free.offset.store(MAX_6B_OFFSET, std::memory_order_relaxed);
+    bk_header->ResetReaderEpochState();
+
+    bool success = fwrite(buffer, RollableFile::page_size, 1, fp) == 1;
+    if (fclose(fp) != 0)
+        success = false;
+
+    const char* queue_dir = db_ref.GetDictPtr()->GetQueueDir();
+    if (success) {
+        // Readers can open a database only if its queue exists.
+        std::string queue_path = ShmQueueMgr::GetFilePath(bk_header->shm_queue_id, queue_dir);
+        ShmQueueMgr::RemoveFile(bk_header->shm_queue_id, queue_dir);
+        try {
+            ShmQueueMgr qmgr;
+            qmgr.CreateFile(bk_header->shm_queue_id, bk_header->async_queue_size,
+                queue_dir, CONSTS::ACCESS_MODE_WRITER);
+        } catch (int err) {
+            Logger::Log(LOG_LEVEL_ERROR, "Backup failed: Could not create queue %s", queue_path.c_str());
+            unlink(tmp_path.c_str());
+            throw;
+        }
+        ResourcePool::getInstance().RemoveResourceByPath(queue_path);
+        success = rename(tmp_path.c_str(), header_path.c_str()) == 0;
+    }
+
+    if (!success) {
+        Logger::Log(LOG_LEVEL_ERROR, "Backup failed: Could not write file %s", header_path.c_str());
+        ShmQueueMgr::RemoveFile(bk_header->shm_queue_id, queue_dir);
+        unlink(tmp_path.c_str());
+        throw (int)MBError::WRITE_ERROR;
+    }
+}
+
 int DBBackup::Backup(const char* bk_dir)
 {
     if (bk_dir == NULL)
@@ -147,22 +209,7 @@ int DBBackup::Backup(const char* bk_dir)
         copy_file(read_file_path, write_file_path, buffer, BLOCK_SIZE_ALIGN);
     }
 
-    read_file_path = orig_dir + "/_mabain_h";
-    write_file_path = std::string(bk_dir) + "/_mabain_h";
-    // header is size of page_size
-    copy_file(read_file_path, write_file_path, buffer, RollableFile::page_size);
-
-    // reset number readers/writers in backed up DB.
-    int rval;
-    DB db = DB(bk_dir, CONSTS::ACCESS_MODE_READER, 0, 0);
-    rval = db.UpdateNumHandlers(CONSTS::ACCESS_MODE_WRITER, -1);
-    if (rval != MBError::SUCCESS)
-        Logger::Log(LOG_LEVEL_WARN, "failed to reset number of writer for DB %s", bk_dir);
-
-    rval = db.UpdateNumHandlers(CONSTS::ACCESS_MODE_READER, INT_MIN);
-    if (rval != MBError::SUCCESS)
-        Logger::Log(LOG_LEVEL_WARN, "failed to reset number of writer for DB %s", bk_dir);
-    db.Close();
+    create_header(bk_dir, buffer);
     return MBError::SUCCESS;
 }
 
diff --git a/src/mb_backup.h b/src/mb_backup.h
index 1030196..45226f7 100644
--- a/src/mb_backup.h
+++ b/src/mb_backup.h
@@ -36,6 +36,7 @@ public:
 private:
     static void copy_file(const std::string& src_path,
         const std::string& dest_path, char* buffer, int buffer_size);
+    void create_header(const std::string& bk_dir, char* buffer);
 
     const DB& db_ref;
     const IndexHeader* header;
-- 
2.43.0


From 2bd6bc2cb5375a9e272bbf065ae76bd488a848d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:02 +0000
Subject: [PATCH 34/53] fix: recreating a database must not remove the queues
 of others or use removed files

---
 src/db.cpp         | 6 ++++++
 src/util/utils.cpp | 1 -
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/db.cpp b/src/db.cpp
index cfc9f30..d90baeb 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -757,6 +757,12 @@ void DB::ReInit(MBConfig& config)
     std::cout << "erase corrupted DB and retry\n";
     Close();
     std::string db_dir = std::string(config.mbdir);
+    // The queues of other databases must not be removed.
+    uint64_t qid = get_file_inode(db_dir + "/_mabain_h");
+    if (qid != 0)
+        ShmQueueMgr::RemoveFile(qid, config.queue_dir);
+    // The files being removed must not be used by the new database.
+    ResourcePool::getInstance().RemoveResourceByDB(mb_dir);
     remove_db_files(db_dir);
     status = MBError::NOT_INITIALIZED;
     InitDBEx(config);
diff --git a/src/util/utils.cpp b/src/util/utils.cpp
index c67497a..6a64f43 100644
--- a/src/util/utils.cpp
+++ b/src/util/utils.cpp
@@ -121,7 +121,6 @@ static int remove_matched_files(const std::string& dpath, const std::string& pat
 
 int remove_db_files(const std::string& db_dir)
 {
-    remove_matched_files("/dev/shm", "_mabain_q");
     remove_matched_files(db_dir, "_mabain_");
     return 0;
 }
-- 
2.43.0


From 83e8b7ebf5a712f6142862ac8a7fd1061f9ad021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:29 +0000
Subject: [PATCH 35/53] fix: releasing the resources of a database must not
 affect other databases

---
 src/resource_pool.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/resource_pool.cpp b/src/resource_pool.cpp
index c2f8233..9eb82d1 100644
--- a/src/resource_pool.cpp
+++ b/src/resource_pool.cpp
@@ -63,10 +63,15 @@ void ResourcePool::RemoveResourceByPath(const std::string& path)
 
 void ResourcePool::RemoveResourceByDB(const std::string& db_path)
 {
+    // Match the files in this directory, not in others whose names start the same.
+    std::string dir = db_path;
+    if (dir.empty() || dir[dir.size() - 1] != '/')
+        dir += "/";
+
     pthread_mutex_lock(&pool_mutex);
 
     for (auto it = file_pool.begin(); it != file_pool.end();) {
-        if (it->first.compare(0, db_path.size(), db_path) == 0)
+        if (it->first.compare(0, dir.size(), dir) == 0 && it->first.find('/', dir.size()) == std::string::npos)
             it = file_pool.erase(it);
         else
             it++;
-- 
2.43.0


From 10a1cc0f99c48dd367039c331e68dc29cbc3a264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:21 +0000
Subject: [PATCH 36/53] fix: a new database must start empty when index files
 of an incomplete one exist

---
 src/dict_mem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index eb4cf44..70ff448 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -232,6 +232,8 @@ void DictMem::InitRootNode()
     }
     assert(root_offset == 0);
 
+    // The files may have been left by a database that was not fully created or deleted.
+    memset(root_node, 0, node_size[NUM_ALPHABET - 1]);
     root_node[0] = FLAG_NODE_NONE | FLAG_NODE_SORTED;
     root_node[1] = NUM_ALPHABET - 1;
     for (int i = 0; i < NUM_ALPHABET; i++) {
-- 
2.43.0


From a383f31f6d7d4220dac36f526385a5629646da09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:44 +0000
Subject: [PATCH 37/53] fix: a restarted writer must announce the edge modified
 last to the readers

---
 src/lock_free.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lock_free.cpp b/src/lock_free.cpp
index b0968d2..c60fbae 100644
--- a/src/lock_free.cpp
+++ b/src/lock_free.cpp
@@ -44,9 +44,13 @@ void LockFree::LockFreeInit(LockFreeShmData* lock_free_ptr, IndexHeader* hdr, in
         // The counter must not go back since readers may hold a snapshot taken before
         // the writer was restarted. If the previous writer was terminated in an
         // update, the offset is kept until the update is completed by the recovery.
-        if (header == NULL || header->excep_updating_status == EXCEP_STATUS_NONE
-            || (mode & CONSTS::OPTION_JEMALLOC))
+        size_t offset = shm_data_ptr->offset.load(MEMORY_ORDER_READER);
+        if (header == NULL || (mode & CONSTS::OPTION_JEMALLOC) || offset == 0) {
             shm_data_ptr->offset.store(MAX_6B_OFFSET, MEMORY_ORDER_WRITER);
+        } else if (header->excep_updating_status == EXCEP_STATUS_NONE && offset != MAX_6B_OFFSET) {
+            // The edge was modified, but the readers were not told yet.
+            WriterLockFreeStop();
+        }
     }
 }
 
-- 
2.43.0


From 883b8313d36caf5b831ce08bd8b33111eca30be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 38/53] fix: a new database must not use the prefix cache of an
 incomplete one

---
 src/util/prefix_cache.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/prefix_cache.cpp b/src/util/prefix_cache.cpp
index 892e492..bc4300d 100644
--- a/src/util/prefix_cache.cpp
+++ b/src/util/prefix_cache.cpp
@@ -272,7 +272,9 @@ bool PrefixCache::map_embedded(const std::string& mbdir)
     }
 
     auto* hdr = reinterpret_cast<PCShmHeader*>((uint8_t*)base + shm_delta);
-    bool init = (hdr->magic != MAGIC || hdr->version != VER);
+    // The tables of an incomplete database must not be used by the one being created.
+    bool new_db = hdr_->version[0] == 0 && hdr_->version[1] == 0 && hdr_->version[2] == 0;
+    bool init = (new_db || hdr->magic != MAGIC || hdr->version != VER);
     if (init) {
         hdr->magic = MAGIC;
         hdr->version = VER;
-- 
2.43.0


From 5b055fe5470cc362b836c83accf11804b95d894e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 39/53] fix: a failed open must not erase the database

---
 src/db.cpp       |  5 +++--
 src/drm_base.cpp | 28 ++++++++++++++++++++++------
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index d90baeb..a48e4d5 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -780,8 +780,9 @@ void DB::InitDB(MBConfig& config)
 
     int fd = acquire_file_lock_wait_n(lock_file, 5000);
     InitDBEx(config);
-    if ((config.options & CONSTS::ACCESS_MODE_WRITER) && !is_open()
-        && status != MBError::WRITER_EXIST && status != MBError::NOT_ALLOWED) {
+    // Only files that do not hold a database of this version are replaced. A failed
+    // system call or another configuration must not erase the database.
+    if ((config.options & CONSTS::ACCESS_MODE_WRITER) && status == MBError::VERSION_MISMATCH) {
         ReInit(config);
     }
     release_file_lock(fd);
diff --git a/src/drm_base.cpp b/src/drm_base.cpp
index aa7d46a..fb3191c 100644
--- a/src/drm_base.cpp
+++ b/src/drm_base.cpp
@@ -43,11 +43,18 @@ void DRMBase::ReadHeaderVersion(const std::string& header_path, uint16_t ver[4])
         Logger::Log(LOG_LEVEL_ERROR, "failed to open header file %s", header_path.c_str());
         throw (int)MBError::OPEN_FAILURE;
     }
-    if (fread(ver, sizeof(uint16_t), 4, hdr_file) != 4) {
-        fclose(hdr_file);
-        throw (int)MBError::READ_ERROR;
-    }
+    // A header shorter than a page is not complete.
+    size_t hdr_size = 0;
+    char byte;
+    if (fread(ver, sizeof(uint16_t), 4, hdr_file) == 4
+        && fseek(hdr_file, RollableFile::page_size - 1, SEEK_SET) == 0)
+        hdr_size = fread(&byte, 1, 1, hdr_file);
+    bool failed = ferror(hdr_file);
     fclose(hdr_file);
+    if (failed)
+        throw (int)MBError::READ_ERROR;
+    if (hdr_size == 0)
+        memset(ver, 0, sizeof(uint16_t) * 4);
 }
 
 void DRMBase::ReadHeader(const std::string& header_path, uint8_t* buff, int buf_size)
@@ -87,8 +94,17 @@ void DRMBase::ValidateHeaderFile(const std::string& header_path, int mode,
 
     uint16_t hdr_ver[4];
     ReadHeaderVersion(header_path, hdr_ver);
-    if (HeaderVersionMatchesCurrent(hdr_ver))
-        return;
+    if (HeaderVersionMatchesCurrent(hdr_ver)) {
+        alignas(IndexHeader) uint8_t buff[sizeof(IndexHeader)];
+        ReadHeader(header_path, buff, sizeof(buff));
+        const IndexHeader* hdr = reinterpret_cast<const IndexHeader*>(buff);
+        if (hdr->index_block_size != 0 && hdr->index_block_size % BLOCK_SIZE_ALIGN == 0
+            && hdr->data_block_size != 0 && hdr->data_block_size % BLOCK_SIZE_ALIGN == 0
+            && hdr->async_queue_size > 0 && hdr->version[3] == 0)
+            return;
+        Logger::Log(LOG_LEVEL_ERROR, "header %s is corrupt", header_path.c_str());
+        throw (int)MBError::VERSION_MISMATCH;
+    }
 
     Logger::Log(LOG_LEVEL_INFO, "header version: %u.%u.%u does not match "
                                 "library version: %u.%u.%u",
-- 
2.43.0


From 790a57e16663ab13d489ad14e5664876333f994c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 40/53] fix: an exception while opening a database must not
 leave the writer lock held

---
 src/db.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/db.cpp b/src/db.cpp
index a48e4d5..8e5904b 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -842,7 +842,14 @@ void DB::InitDBEx(MBConfig& config)
     // Prefix cache: auto-enable only if DB was created with OPTION_PREFIX_CACHE
     // (embedded) or reader requested the option and cache can attach.
 
-    PostDBUpdate(config, init_header, update_header);
+    // An exception must not leave the constructor: the writer lock would never be released.
+    try {
+        PostDBUpdate(config, init_header, update_header);
+    } catch (int error) {
+        status = error;
+        Logger::Log(LOG_LEVEL_ERROR, "failed to open database %s: %s", mb_dir.c_str(),
+            MBError::get_error_str(status));
+    }
 }
 
 int DB::Status() const
-- 
2.43.0


From 34420b070e571f3879f27bc712c0d79c27db0e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 41/53] fix: another queue size must be refused before the
 queue in use is resized

---
 src/dict.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dict.cpp b/src/dict.cpp
index 80686b6..063076d 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -65,6 +65,13 @@ Dict::Dict(const std::string& mbdir, bool init_header, int datasize,
             Destroy();
             throw (int)MBError::INVALID_SIZE;
         }
+        // The queue must not be resized while others use it.
+        if (mm.IsValid() && header->async_queue_size != (int)queue_size) {
+            Logger::Log(LOG_LEVEL_ERROR, "async queue size not matching with header: %d %d",
+                header->async_queue_size, (int)queue_size);
+            Destroy();
+            throw (int)MBError::INVALID_SIZE;
+        }
     } else {
         header->data_block_size = block_sz_data;
     }
-- 
2.43.0


From 97bcf71add209f1fb7f4ad93038fa883c4a63337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 42/53] fix: a writer must not run without the prefix cache it
 has to invalidate

---
 src/dict.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 063076d..db2f038 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -154,7 +154,12 @@ Dict::Dict(const std::string& mbdir, bool init_header, int datasize,
             try {
                 prefix_cache = std::unique_ptr<PrefixCache>(new PrefixCache(mbdir_, header, /*capacity hint*/65536));
             } catch (...) {
-                // Leave cache disabled on failure; DB remains operational.
+                // A reader does without the cache. A writer must not: the cached
+                // entries of what it updates would never be invalidated.
+                if (options & CONSTS::ACCESS_MODE_WRITER) {
+                    Destroy();
+                    throw (int)MBError::OPEN_FAILURE;
+                }
             }
         }
     }
-- 
2.43.0


From d293b4c1ed2cd3acab13b0cbe92be931596cb6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 43/53] fix: RemoveAll must clear the root edges before the
 jemalloc arena is reset

---
 src/dict.cpp     | 17 ++++++-----------
 src/dict_mem.cpp |  5 ++++-
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index db2f038..3216c17 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -1005,6 +1005,12 @@ int Dict::RemoveAll()
     int rval = MBError::SUCCESS;
 
     ClearPrefixCache();
+    // The space must not be reused before all root edges are cleared.
+    for (int c = 0; c < NUM_ALPHABET; c++) {
+        rval = mm.ClearRootEdge(c);
+        if (rval != MBError::SUCCESS)
+            break;
+    }
     if (options & CONSTS::OPTION_JEMALLOC) {
         mm.ClearMem(); // clear memory will re-initialize jemalloc
         mm.InitRootNode();
@@ -1012,18 +1018,7 @@ int Dict::RemoveAll()
         // Keep the embedded prefix cache out of the new arena.
         if (header->pfxcache_size > 0)
             (void)kv_file->PreAlloc(GetStartDataOffset());
-        for (int c = 0; c < NUM_ALPHABET; c++) {
-            rval = mm.ClearRootEdge(c);
-            if (rval != MBError::SUCCESS)
-                break;
-        }
     } else {
-        for (int c = 0; c < NUM_ALPHABET; c++) {
-            rval = mm.ClearRootEdge(c);
-            if (rval != MBError::SUCCESS)
-                break;
-        }
-        // The space must not be reused before all root edges are cleared.
         mm.ClearMem();
         header->m_data_offset = GetStartDataOffset();
         free_lists->Empty();
diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index 70ff448..ee44ef3 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -233,7 +233,10 @@ void DictMem::InitRootNode()
     assert(root_offset == 0);
 
     // The files may have been left by a database that was not fully created or deleted.
-    memset(root_node, 0, node_size[NUM_ALPHABET - 1]);
+    // Readers may be using the node if all entries are being removed.
+    memset(root_node + 2, 0, NODE_EDGE_KEY_FIRST - 2);
+    memset(root_node + NODE_EDGE_KEY_FIRST + NUM_ALPHABET, 0,
+        node_size[NUM_ALPHABET - 1] - NODE_EDGE_KEY_FIRST - NUM_ALPHABET);
     root_node[0] = FLAG_NODE_NONE | FLAG_NODE_SORTED;
     root_node[1] = NUM_ALPHABET - 1;
     for (int i = 0; i < NUM_ALPHABET; i++) {
-- 
2.43.0


From a3ac11b97a53194369df8767e7b9cfb5f1f40bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 44/53] fix: a file must not be extended without the disk space
 it needs

---
 src/file_io.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/file_io.cpp b/src/file_io.cpp
index 62e0abd..cdf817a 100644
--- a/src/file_io.cpp
+++ b/src/file_io.cpp
@@ -178,6 +178,12 @@ int FileIO::AllocateFile(off_t filesize)
         }
 
         int falloc_errno = errno;
+        // Without the space a store to the mapped file would raise SIGBUS.
+        if (falloc_errno != EOPNOTSUPP && falloc_errno != ENOSYS && falloc_errno != EINVAL) {
+            Logger::Log(LOG_LEVEL_ERROR, "fallocate failed for file %s, errno=%d",
+                path.c_str(), falloc_errno);
+            return 1;
+        }
         Logger::Log(LOG_LEVEL_WARN, "fallocate failed for file %s, errno=%d, falling back to ftruncate",
             path.c_str(), falloc_errno);
 
-- 
2.43.0


From 711d27b15f352163f45c8fe545b49a2ed1fff401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 45/53] fix: a resource collection that cannot be completed
 must not clear the database

---
 src/mb_rc.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index 6568293..ede987f 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -1065,10 +1065,10 @@ int ResourceCollection::ExceptionRecovery()
                 rval = err;
         }
 
-        if (rval != MBError::SUCCESS) {
-            Logger::Log(LOG_LEVEL_ERROR, "failed to run rc recovery: %s, clear db!!!", MBError::get_error_str(rval));
-            dict->RemoveAll();
-        }
+        // Every buffer is moved and relinked in one step. The content is intact if the
+        // collection cannot be completed, e.g. for lack of space.
+        if (rval != MBError::SUCCESS)
+            Logger::Log(LOG_LEVEL_ERROR, "failed to run rc recovery: %s", MBError::get_error_str(rval));
     }
 
     header->rc_root_offset = 0;
-- 
2.43.0


From 29ca2c3b14be0025e4d413aeada276fc1eed4100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 46/53] fix: a file that could not be mapped must be opened
 again

---
 src/resource_pool.cpp | 5 ++++-
 src/rollable_file.cpp | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/resource_pool.cpp b/src/resource_pool.cpp
index 9eb82d1..3571baf 100644
--- a/src/resource_pool.cpp
+++ b/src/resource_pool.cpp
@@ -88,6 +88,7 @@ std::shared_ptr<MmapFileIO> ResourcePool::OpenFileWithKey(const std::string& poo
     bool create_file)
 {
     std::shared_ptr<MmapFileIO> mmap_file;
+    bool want_map = map_file;
 
     pthread_mutex_lock(&pool_mutex);
 
@@ -126,7 +127,9 @@ std::shared_ptr<MmapFileIO> ResourcePool::OpenFileWithKey(const std::string& poo
             }
         }
 
-        file_pool[pool_key] = mmap_file;
+        // A file that could not be mapped must be tried again when it is opened next time.
+        if (map_file == want_map)
+            file_pool[pool_key] = mmap_file;
     } else {
         mmap_file = search->second;
     }
diff --git a/src/rollable_file.cpp b/src/rollable_file.cpp
index 4af6f7b..297f5be 100644
--- a/src/rollable_file.cpp
+++ b/src/rollable_file.cpp
@@ -185,6 +185,7 @@ int RollableFile::OpenAndMapBlockFile(size_t block_order, bool create_file)
             rval = ConfigureJemalloc(files[0]->mm_meta);
         }
     } else if ((mode & CONSTS::MEMORY_ONLY_MODE) || (mode & CONSTS::OPTION_JEMALLOC)) {
+        files[block_order] = nullptr;
         rval = MBError::MMAP_FAILED;
     }
     return rval;
-- 
2.43.0


From 4504da180aee81935bf1a442e84eeff5453ff107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 47/53] fix: threads of a process opening the same database
 must exclude each other

---
 src/db.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/db.cpp b/src/db.cpp
index 8e5904b..0e80fdb 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -19,6 +19,8 @@
 #include <fcntl.h>
 #include <fstream>
 #include <iostream>
+#include <map>
+#include <mutex>
 #include <sstream>
 #include <sys/file.h>
 #include <sys/syscall.h>
@@ -778,6 +780,14 @@ void DB::InitDB(MBConfig& config)
         lock_file = db_dir + "/_mbh_lock";
     }
 
+    // The file lock does not exclude other threads of this process.
+    static std::mutex opening_mutex;
+    static std::map<std::string, std::mutex> opening;
+    opening_mutex.lock();
+    std::mutex& dir_mutex = opening[lock_file];
+    opening_mutex.unlock();
+    std::lock_guard<std::mutex> guard(dir_mutex);
+
     int fd = acquire_file_lock_wait_n(lock_file, 5000);
     InitDBEx(config);
     // Only files that do not hold a database of this version are replaced. A failed
-- 
2.43.0


From 430424be779e1e23d3ac30f9415d910ef8c105d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 48/53] fix: an entry updated during the eviction was evicted
 by its old bucket

The asynchronous writer applies queued updates while it evicts entries. An
entry that had been loaded by the iterator and was updated before its turn
was removed because of the bucket it was in before: an accepted update was
lost and the newest entries were evicted.
---
 src/mb_rc.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index ede987f..272a4b3 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -24,6 +24,7 @@
 #include <sstream>
 #include <sys/time.h>
 
+#include "detail/search_engine.h"
 #include "dict.h"
 #include "dict_mem.h"
 #include "integer_4b_5b.h"
@@ -119,11 +120,15 @@ int ResourceCollection::LRUEviction(int64_t max_dbsz, int64_t max_dbcnt)
 
     DB db_itr(db_ref);
     for (DB::iterator iter = db_itr.begin(false); iter != db_itr.end(); ++iter) {
-        if (CIRCULAR_PRUNE_DIFF(iter.value.bucket_index, header->eviction_bucket_index) < prune_diff) {
-            if (async_writer_ptr != NULL) {
-                rval = dict->Remove((const uint8_t*)iter.key.data(), iter.key.size());
-            } else
-                rval = dict->Remove((const uint8_t*)iter.key.data(), iter.key.size());
+        bool prune = CIRCULAR_PRUNE_DIFF(iter.value.bucket_index, header->eviction_bucket_index) < prune_diff;
+        if (prune && async_writer_ptr != NULL) {
+            // The entry may have been updated since it was loaded by the iterator.
+            MBData curr;
+            prune = detail::SearchEngine(*dict).find((const uint8_t*)iter.key.data(), iter.key.size(), curr) == MBError::SUCCESS
+                && CIRCULAR_PRUNE_DIFF(curr.bucket_index, header->eviction_bucket_index) < prune_diff;
+        }
+        if (prune) {
+            rval = dict->Remove((const uint8_t*)iter.key.data(), iter.key.size());
             if (rval != MBError::SUCCESS)
                 Logger::Log(LOG_LEVEL_DEBUG, "failed to run eviction %s", MBError::get_error_str(rval));
             else
-- 
2.43.0


From d77bba0a1a59dcf13a1a7e4bf62e37d48965da2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 49/53] fix: the eviction index must wrap around like the
 buckets

Buckets are numbered modulo 0xFFFF but the eviction index modulo 0x10000. Once
it reached 0xFFFF it stopped moving ahead of the current bucket, and newer
entries were evicted while older ones were kept.
---
 src/dict.cpp  | 4 ++--
 src/mb_rc.cpp | 5 ++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 3216c17..5af6d2c 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -1059,7 +1059,7 @@ void Dict::ReserveData(const uint8_t* buff, int size, size_t& offset)
         // store bucket index for LRU eviction
         dsize[1] = (header->num_update / header->entry_per_bucket) % 0xFFFF;
         if (dsize[1] == header->eviction_bucket_index && header->num_update > header->entry_per_bucket) {
-            header->eviction_bucket_index++;
+            header->eviction_bucket_index = (header->eviction_bucket_index + 1) % 0xFFFF;
         }
         memcpy(ptr, &dsize[0], DATA_HDR_BYTE);
         memcpy(static_cast<uint8_t*>(ptr) + DATA_HDR_BYTE, buff, size);
@@ -1088,7 +1088,7 @@ void Dict::reserveDataFL(const uint8_t* buff, int size, size_t& offset)
     // store bucket index for LRU eviction
     dsize[1] = (header->num_update / header->entry_per_bucket) % 0xFFFF;
     if (dsize[1] == header->eviction_bucket_index && header->num_update > header->entry_per_bucket) {
-        header->eviction_bucket_index++;
+        header->eviction_bucket_index = (header->eviction_bucket_index + 1) % 0xFFFF;
     }
 
     if (free_lists->GetBufferCountByIndex(buf_index) > 0) {
diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index 272a4b3..d0aae9f 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -146,9 +146,8 @@ int ResourceCollection::LRUEviction(int64_t max_dbsz, int64_t max_dbcnt)
     }
 
     if (rval != MBError::RC_SKIPPED) {
-        // It is expected that eviction_bucket_index can overflow since we are only
-        // interested in circular difference.
-        header->eviction_bucket_index += prune_diff;
+        // eviction_bucket_index wraps around in the same way as the bucket of the entries.
+        header->eviction_bucket_index = (header->eviction_bucket_index + prune_diff) % 0xFFFF;
         // If not enough pruned, need to retry.
         if (pruned < int64_t(prune_diff * header->entry_per_bucket * 0.75))
             rval = MBError::TRY_AGAIN;
-- 
2.43.0


From 1ee55a196681c940eed723ba5d81dcfc411c1b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 50/53] fix: the eviction removed new entries after a
 remove-all

A remove-all applied while the asynchronous writer evicts entries restarts the
bucket numbers. The rest of the pass removed entries added since then, and
moved the eviction index ahead of the current bucket.
---
 src/mb_rc.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index d0aae9f..446daf6 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -138,9 +138,13 @@ int ResourceCollection::LRUEviction(int64_t max_dbsz, int64_t max_dbcnt)
         if (async_writer_ptr != NULL) {
             if (count++ > PRUNE_TASK_CHECK) {
                 count = 0;
+                const int64_t num_update = header->num_update;
                 rval = async_writer_ptr->ProcessTask(NUM_ASYNC_TASK, false);
                 if (rval == MBError::RC_SKIPPED)
                     break;
+                // All entries were removed. The buckets start again from zero.
+                if (header->num_update < num_update)
+                    return MBError::SUCCESS;
             }
         }
     }
-- 
2.43.0


From d3fb8574da1cf6eb894626678a334816bf5718e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 51/53] fix: an interrupted clearing of a jemalloc database
 must be done again

---
 src/db.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/db.cpp b/src/db.cpp
index 0e80fdb..3bbc690 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -646,10 +646,13 @@ int DB::RunStartupRebuild()
         startup_rebuild_reset_only = false;
         if (dict == NULL)
             return MBError::NOT_INITIALIZED;
+        IndexHeader* reset_header = dict->GetHeaderPtr();
+        // The next startup must clear the DB if this one is terminated before it is done.
+        if (reset_header != NULL)
+            reset_header->SetRebuildActive();
         int rval = dict->RemoveAll();
         if (rval != MBError::SUCCESS)
             return rval;
-        IndexHeader* reset_header = dict->GetHeaderPtr();
         if (reset_header != NULL) {
             reset_header->ClearRebuildMetadata();
             reset_header->ResetReaderEpochState();
-- 
2.43.0


From 8d1b894fa5529ed4d7ea857021a1c2037137e7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:04 +0000
Subject: [PATCH 52/53] fix: a torn edge was readable while a jemalloc database
 was being cleared

---
 src/db.cpp        | 25 ++++++++++++++++---------
 src/db.h          |  1 +
 src/lock_free.cpp |  2 +-
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index 3bbc690..2c108ed 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -505,15 +505,7 @@ void DB::PostDBUpdate(const MBConfig& config, bool init_header, bool update_head
     }
 
     if ((config.options & CONSTS::ACCESS_MODE_WRITER) && !(config.options & CONSTS::OPTION_JEMALLOC)) {
-        // Complete the update interrupted by an abnormal termination of the previous writer.
-        int rval;
-        try {
-            rval = dict->ExceptionRecovery();
-        } catch (int err) {
-            rval = err;
-        }
-        if (rval != MBError::SUCCESS)
-            Logger::Log(LOG_LEVEL_WARN, "dict exception recovery failed: %s", MBError::get_error_str(rval));
+        CompleteInterruptedUpdate();
     }
 
     lock.Init(dict->GetShmLockPtr());
@@ -554,6 +546,7 @@ void DB::PostDBUpdate(const MBConfig& config, bool init_header, bool update_head
                 } else {
                     // Default behavior: reset db in jemalloc mode if header already exists
                     Logger::Log(LOG_LEVEL_DEBUG, "reset db in jemalloc mode");
+                    CompleteInterruptedUpdate();
                     int rval = dict->RemoveAll();
                     if (rval != MBError::SUCCESS) {
                         Logger::Log(LOG_LEVEL_ERROR, "failed to reset db: %s", MBError::get_error_str(rval));
@@ -579,6 +572,19 @@ void DB::PostDBUpdate(const MBConfig& config, bool init_header, bool update_head
     }
 }
 
+// Complete the update interrupted by an abnormal termination of the previous writer.
+void DB::CompleteInterruptedUpdate()
+{
+    int rval;
+    try {
+        rval = dict->ExceptionRecovery();
+    } catch (int err) {
+        rval = err;
+    }
+    if (rval != MBError::SUCCESS)
+        Logger::Log(LOG_LEVEL_WARN, "dict exception recovery failed: %s", MBError::get_error_str(rval));
+}
+
 bool DB::StartupRebuildRequested(const MBConfig& config, bool init_header) const
 {
     return (config.options & CONSTS::ACCESS_MODE_WRITER)
@@ -650,6 +656,7 @@ int DB::RunStartupRebuild()
         // The next startup must clear the DB if this one is terminated before it is done.
         if (reset_header != NULL)
             reset_header->SetRebuildActive();
+        CompleteInterruptedUpdate();
         int rval = dict->RemoveAll();
         if (rval != MBError::SUCCESS)
             return rval;
diff --git a/src/db.h b/src/db.h
index 8732f2e..ac3554d 100644
--- a/src/db.h
+++ b/src/db.h
@@ -239,6 +239,7 @@ private:
     void ReInit(MBConfig& config);
     void PreCheckDB(const MBConfig& config, bool& init_header, bool& update_header);
     void PostDBUpdate(const MBConfig& config, bool init_header, bool update_header);
+    void CompleteInterruptedUpdate();
     bool StartupRebuildRequested(const MBConfig& config, bool init_header) const;
     int PrepareStartupRebuild(const MBConfig& config, bool init_header);
     bool StartupRebuildMetadataReady() const;
diff --git a/src/lock_free.cpp b/src/lock_free.cpp
index c60fbae..5496d3a 100644
--- a/src/lock_free.cpp
+++ b/src/lock_free.cpp
@@ -45,7 +45,7 @@ void LockFree::LockFreeInit(LockFreeShmData* lock_free_ptr, IndexHeader* hdr, in
         // the writer was restarted. If the previous writer was terminated in an
         // update, the offset is kept until the update is completed by the recovery.
         size_t offset = shm_data_ptr->offset.load(MEMORY_ORDER_READER);
-        if (header == NULL || (mode & CONSTS::OPTION_JEMALLOC) || offset == 0) {
+        if (header == NULL || offset == 0) {
             shm_data_ptr->offset.store(MAX_6B_OFFSET, MEMORY_ORDER_WRITER);
         } else if (header->excep_updating_status == EXCEP_STATUS_NONE && offset != MAX_6B_OFFSET) {
             // The edge was modified, but the readers were not told yet.
-- 
2.43.0


From efb77d71d9310e107b483bfea2ed3d4e8b19a4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:35 +0000
Subject: [PATCH 53/53] fix: a reused jemalloc block was handed out again as
 the tail block

---
 src/mb_mm.h           | 3 +++
 src/rollable_file.cpp | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mb_mm.h b/src/mb_mm.h
index 83c3b99..22f84f8 100644
--- a/src/mb_mm.h
+++ b/src/mb_mm.h
@@ -34,6 +34,7 @@ public:
         , arena_index(0)
         , active_reusable_block_order(-1)
         , active_reusable_block_offset(0)
+        , reused_block_end(0)
     {
         extent_hooks = new extent_hooks_t();
     }
@@ -51,6 +52,8 @@ public:
     std::vector<uint32_t> reusable_block_order;
     int active_reusable_block_order;
     size_t active_reusable_block_offset;
+    // end of the reusable blocks handed out so far, which the tail must skip
+    int reused_block_end;
 };
 
 }
diff --git a/src/rollable_file.cpp b/src/rollable_file.cpp
index 297f5be..5164062 100644
--- a/src/rollable_file.cpp
+++ b/src/rollable_file.cpp
@@ -16,6 +16,7 @@
 
 // @author Changxue Deng <chadeng@cisco.com>
 
+#include <algorithm>
 #include <assert.h>
 #include <climits>
 #include <cstdlib>
@@ -805,12 +806,13 @@ void* RollableFile::custom_extent_alloc(void* new_addr, size_t size, size_t alig
                     return nullptr;
                 }
                 mm_meta->reusable_block_order.pop_back();
+                mm_meta->reused_block_end = std::max(mm_meta->reused_block_end, block_order + 1);
                 mm_meta->active_reusable_block_order = block_order;
                 mm_meta->active_reusable_block_offset = size;
                 ptr = mgr->files[block_order]->GetMapAddr();
             } else {
                 // Try next tail block
-                block_order++;
+                block_order = std::max(block_order + 1, mm_meta->reused_block_end);
                 if ((size_t)block_order >= mgr->max_num_block) {
                     Logger::Log(LOG_LEVEL_ERROR, "custom_extent_alloc: arena %u max block number exceeded",
                         " new memory (aligned offset: %zu, used: %zu, size: %zu)",
-- 
2.43.0

