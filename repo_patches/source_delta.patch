From 3a8950e83640e24a142db45b9d3f00ae60868c41 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 01/66] fix: keep snapshot visibility of blackboard entries
 moved by a deletion

---
 src/caliper/Blackboard.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/caliper/Blackboard.cpp b/src/caliper/Blackboard.cpp
index 3d1c00f..01756b4 100644
--- a/src/caliper/Blackboard.cpp
+++ b/src/caliper/Blackboard.cpp
@@ -87,7 +87,18 @@ void Blackboard::del(cali_id_t key)
             size_t k = hashtable[j].key % Nmax;
             if ((j > I && (k <= I || k > j)) || (j < I && (k <= I && k > j))) {
                 hashtable[I] = hashtable[j];
-                I            = j;
+
+                // the entry keeps its include-in-snapshots flag
+                if (toc[j / 32] & (1 << (j % 32))) {
+                    toc[I / 32] |= (1 << (I % 32));
+                    toctoc |= (1 << (I / 32));
+                } else {
+                    toc[I / 32] &= ~(1 << (I % 32));
+                    if (toc[I / 32] == 0)
+                        toctoc &= ~(1 << (I / 32));
+                }
+
+                I = j;
             }
         }
     }
-- 
2.43.0


From af797cc31db8f8f1cb3974772f96a4231f4b1b5d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 02/66] fix: give hidden reference attributes their own
 blackboard slot

A hidden attribute opened first hid all regions from snapshots, and one
opened after another region became visible in snapshots.
---
 src/caliper/Caliper.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 33e72ad..f9fb23b 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -525,11 +525,12 @@ constexpr cali_id_t UNALIGNED_KEY { 2 };
 // attribute. By default, we merge most attributes into two slots:
 // region_key for region-type (begin/end) attributes, unaligned_key for
 // set-type attributes. We skip stack nesting checks for unaligned
-// attributes. Immediate (as_value) and nomerge attributes get
-// their own slots.
+// attributes. Immediate (as_value) and hidden attributes get
+// their own slots: the latter must not affect the visibility of the
+// other entries in a merged slot.
 inline cali_id_t get_blackboard_key(cali_id_t attr_id, int prop)
 {
-    if (prop & CALI_ATTR_ASVALUE)
+    if (prop & (CALI_ATTR_ASVALUE | CALI_ATTR_HIDDEN))
         return attr_id;
     if (prop & CALI_ATTR_UNALIGNED)
         return UNALIGNED_KEY;
@@ -537,8 +538,11 @@ inline cali_id_t get_blackboard_key(cali_id_t attr_id, int prop)
     return REGION_KEY;
 }
 
-inline cali_id_t get_blackboard_key_for_reference_entry(int prop)
+inline cali_id_t get_blackboard_key_for_reference_entry(cali_id_t attr_id, int prop)
 {
+    if (prop & CALI_ATTR_HIDDEN)
+        return attr_id;
+
     return prop & CALI_ATTR_UNALIGNED ? UNALIGNED_KEY : REGION_KEY;
 }
 
@@ -609,7 +613,7 @@ inline void handle_begin(
     if (prop & CALI_ATTR_ASVALUE) {
         blackboard.set(attr.id(), Entry(attr, value), !(prop & CALI_ATTR_HIDDEN));
     } else {
-        cali_id_t key   = get_blackboard_key_for_reference_entry(prop);
+        cali_id_t key   = get_blackboard_key_for_reference_entry(attr.id(), prop);
         Entry     entry = Entry(tree.get_child(attr, value, blackboard.get(key).node()));
         blackboard.set(key, entry, !(prop & CALI_ATTR_HIDDEN));
     }
@@ -651,7 +655,7 @@ inline void handle_set(
     if (prop & CALI_ATTR_ASVALUE)
         blackboard.set(attr.id(), Entry(attr, value), !(prop & CALI_ATTR_HIDDEN));
     else {
-        cali_id_t key  = get_blackboard_key_for_reference_entry(prop);
+        cali_id_t key  = get_blackboard_key_for_reference_entry(attr.id(), prop);
         Node*     node = blackboard.get(key).node();
         blackboard.set(key, tree.replace_first_in_path(node, attr, value), !(prop & CALI_ATTR_HIDDEN));
     }
-- 
2.43.0


From e49c4e0f6cea2541eb1fc288e005826d543fca31 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 03/66] fix: a mismatched channel-scope end does not stop the
 thread's region tracking

---
 src/caliper/Caliper.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index f9fb23b..ee0092b 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -1144,10 +1144,9 @@ void Caliper::end(ChannelBody* chB, const Attribute& attr)
         current = load_current_entry(attr, key, chB->channel_blackboard);
     }
 
-    if (current.entry.empty()) {
-        sT->stack_error = true;
+    // a mismatch in a channel's annotations does not affect thread or process regions
+    if (current.entry.empty())
         return;
-    }
 
     // invoke callbacks
     if (run_events && chB->is_active)
-- 
2.43.0


From 9de75e266997eab67b351d025bccb890d1a550e1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 04/66] fix: create tree paths longer than a node block in
 several parts

---
 src/caliper/MetadataTree.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/caliper/MetadataTree.cpp b/src/caliper/MetadataTree.cpp
index f8f9f26..082c6ba 100644
--- a/src/caliper/MetadataTree.cpp
+++ b/src/caliper/MetadataTree.cpp
@@ -130,6 +130,17 @@ bool MetadataTree::have_free_nodeblock(size_t n)
 
 Node* MetadataTree::create_path(const Attribute& attr, size_t n, const Variant* data, Node* parent = nullptr)
 {
+    // A path that doesn't fit into a single node block is created in several parts
+
+    const size_t max_n = mG.load()->nodes_per_block;
+
+    for (; n > max_n; n -= max_n, data += max_n) {
+        parent = create_path(attr, max_n, data, parent);
+
+        if (!parent)
+            return nullptr;
+    }
+
     // Get a node block with sufficient free space
 
     if (!have_free_nodeblock(n))
-- 
2.43.0


From aebf6b786eb1367e202e5d4d65c431195e3ebb18 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 05/66] fix: do not read before the start of an empty string
 when creating a string variant

---
 include/caliper/common/cali_variant.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/caliper/common/cali_variant.h b/include/caliper/common/cali_variant.h
index 22f80bf..c648ec4 100644
--- a/include/caliper/common/cali_variant.h
+++ b/include/caliper/common/cali_variant.h
@@ -126,13 +126,15 @@ inline cali_variant_t cali_make_variant_from_string(const char* value)
     size_t   size = strlen(value);
     uint64_t hash = 0;
 
-    const unsigned char* p = (const unsigned char*) value;
-    hash |= p[0];
-    hash <<= 8;
-    hash |= p[size / 2];
-    hash <<= 8;
-    hash |= p[size - 1];
-    hash <<= 8;
+    if (size > 0) {
+        const unsigned char* p = (const unsigned char*) value;
+        hash |= p[0];
+        hash <<= 8;
+        hash |= p[size / 2];
+        hash <<= 8;
+        hash |= p[size - 1];
+        hash <<= 8;
+    }
 
     cali_variant_t v;
 
-- 
2.43.0


From e978a973b417162f35da5b3b0bce9361e54e6bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 06/66] fix: report doubles outside the target range as not
 convertible to integer

---
 src/common/cali_variant.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/common/cali_variant.c b/src/common/cali_variant.c
index 5f457fa..aa6649c 100644
--- a/src/common/cali_variant.c
+++ b/src/common/cali_variant.c
@@ -190,7 +190,10 @@ int cali_variant_to_int(cali_variant_t v, bool* okptr)
             ok = false;
         break;
     case CALI_TYPE_DOUBLE:
-        ret = (int) v.value.v_double;
+        if (v.value.v_double > INT_MIN - 1.0 && v.value.v_double < INT_MAX + 1.0)
+            ret = (int) v.value.v_double;
+        else
+            ok = false;
         break;
     case CALI_TYPE_BOOL:
         ret = (int) v.value.v_bool;
@@ -244,7 +247,10 @@ int64_t cali_variant_to_int64(cali_variant_t v, bool* okptr)
             ok = false;
         break;
     case CALI_TYPE_DOUBLE:
-        ret = (int64_t) v.value.v_double;
+        if (v.value.v_double >= -0x1p63 && v.value.v_double < 0x1p63)
+            ret = (int64_t) v.value.v_double;
+        else
+            ok = false;
         break;
     case CALI_TYPE_BOOL:
         ret = (int64_t) v.value.v_bool;
@@ -298,7 +304,10 @@ uint64_t cali_variant_to_uint(cali_variant_t v, bool* okptr)
         ret = v.value.v_uint;
         break;
     case CALI_TYPE_DOUBLE:
-        ret = (uint64_t) v.value.v_double;
+        if (v.value.v_double > -1.0 && v.value.v_double < 0x1p64)
+            ret = (uint64_t) v.value.v_double;
+        else
+            ok = false;
         break;
     case CALI_TYPE_BOOL:
         ret = (uint64_t) v.value.v_bool;
-- 
2.43.0


From 34339a5d5d129887cb408d94c0754c369255aef9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 07/66] fix: compare integer, pointer and string variants
 without truncating differences or stopping at NUL

---
 src/common/cali_variant.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/common/cali_variant.c b/src/common/cali_variant.c
index aa6649c..c5889b1 100644
--- a/src/common/cali_variant.c
+++ b/src/common/cali_variant.c
@@ -476,12 +476,12 @@ int cali_variant_compare(cali_variant_t lhs, cali_variant_t rhs)
             {
                 int lhssize = (int) _EXTRACT_SIZE(lhs.type_and_size);
                 int rhssize = (int) _EXTRACT_SIZE(rhs.type_and_size);
-                int cmp = strncmp(lhs.value.unmanaged_const_ptr, rhs.value.unmanaged_const_ptr, imin(lhssize, rhssize));
+                int cmp = memcmp(lhs.value.unmanaged_const_ptr, rhs.value.unmanaged_const_ptr, imin(lhssize, rhssize));
 
                 return (cmp ? cmp : (lhssize - rhssize));
             }
         case CALI_TYPE_INT:
-            return lhs.value.v_int - rhs.value.v_int;
+            return (lhs.value.v_int > rhs.value.v_int) - (lhs.value.v_int < rhs.value.v_int);
         case CALI_TYPE_ADDR:
         case CALI_TYPE_UINT:
             {
@@ -500,7 +500,11 @@ int cali_variant_compare(cali_variant_t lhs, cali_variant_t rhs)
         case CALI_TYPE_TYPE:
             return ((int) lhs.value.v_type) - ((int) rhs.value.v_type);
         case CALI_TYPE_PTR:
-            return (int) ((char const*) (lhs.value.unmanaged_ptr) - (char const*) (rhs.value.unmanaged_ptr));
+            {
+                uintptr_t l = (uintptr_t) lhs.value.unmanaged_ptr;
+                uintptr_t r = (uintptr_t) rhs.value.unmanaged_ptr;
+                return (l > r) - (l < r);
+            }
         }
     }
 
-- 
2.43.0


From 6857f8d537d141ba9801398c0331632788836c12 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 08/66] fix: cali_prop2string does not write beyond the given
 buffer

---
 src/common/cali_types.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/cali_types.c b/src/common/cali_types.c
index ac52666..b1cda26 100644
--- a/src/common/cali_types.c
+++ b/src/common/cali_types.c
@@ -70,7 +70,7 @@ int cali_prop2string(int prop, char* buf, size_t len)
 
         size_t slen = strlen(p->str);
 
-        if ((slen + (ret > 0 ? 2 : 1)) > len)
+        if ((ret + slen + (ret > 0 ? 2 : 1)) > len)
             return -1;
         if (ret > 0)
             buf[ret++] = ':';
-- 
2.43.0


From 809565b38de45ddbbcd2431e10c1bb37a7140706 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 09/66] fix: append node blocks to a compressed snapshot record
 without overwriting earlier ones

---
 src/common/CompressedSnapshotRecord.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/CompressedSnapshotRecord.cpp b/src/common/CompressedSnapshotRecord.cpp
index 4d01058..7800d9e 100644
--- a/src/common/CompressedSnapshotRecord.cpp
+++ b/src/common/CompressedSnapshotRecord.cpp
@@ -185,7 +185,7 @@ size_t CompressedSnapshotRecord::append(size_t n, const Node* const node_vec[])
         // size check, copy to actual buffer
         if (m_num_nodes + blk < 128 && m_imm_pos + m_imm_len + len <= m_buffer_len) {
             ::save_memmove(m_buffer + m_imm_pos + len, m_buffer + m_imm_pos, m_imm_len);
-            memcpy(m_buffer + 1, tmp, len);
+            memcpy(m_buffer + m_imm_pos, tmp, len);
 
             m_imm_pos += len;
             m_num_nodes += blk;
-- 
2.43.0


From f04702541c76856fa46accc02ff83cafee9f5d60 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:30:15 +0000
Subject: [PATCH 10/66] fix: cali_channel_flush ignores invalid channel ids
 instead of crashing

---
 src/caliper/cali.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/caliper/cali.cpp b/src/caliper/cali.cpp
index a389a34..29001d8 100644
--- a/src/caliper/cali.cpp
+++ b/src/caliper/cali.cpp
@@ -724,6 +724,11 @@ void cali_channel_flush(cali_id_t chn_id, int flush_opts)
     Caliper c;
     Channel channel = c.get_channel(chn_id);
 
+    if (!channel) {
+        Log(0).stream() << "cali_channel_flush(): invalid channel id " << chn_id << std::endl;
+        return;
+    }
+
     c.flush_and_write(channel.body(), SnapshotView());
 
     if (flush_opts & CALI_FLUSH_CLEAR_BUFFERS)
-- 
2.43.0


From c91f68fa1f157561b555e3073d3812d753fa73fc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 11/66] fix: clear the trace buffer after an overflow flush

---
 src/services/trace/Trace.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/services/trace/Trace.cpp b/src/services/trace/Trace.cpp
index e3ac45e..bbf0c1a 100644
--- a/src/services/trace/Trace.cpp
+++ b/src/services/trace/Trace.cpp
@@ -123,6 +123,8 @@ class Trace
             {
                 Log(1).stream() << m_channel.name() << ": trace: Trace buffer full, flushing.\n";
                 c->flush_and_write(m_channel.body(), SnapshotView());
+                // the buffers were written: make room, and don't write the same records again
+                c->clear(&m_channel);
                 return tbuf;
             }
 
-- 
2.43.0


From 49866558ee0d55dbaae8a4f3d201273505f7b408 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 12/66] fix: flush trace buffer chunks in the order they were
 filled

---
 src/services/trace/TraceBufferChunk.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/services/trace/TraceBufferChunk.cpp b/src/services/trace/TraceBufferChunk.cpp
index 6bc5bb0..b70dc9f 100644
--- a/src/services/trace/TraceBufferChunk.cpp
+++ b/src/services/trace/TraceBufferChunk.cpp
@@ -44,6 +44,13 @@ size_t TraceBufferChunk::flush(Caliper* c, SnapshotFlushFn proc_fn)
 {
     size_t written = 0;
 
+    //
+    // flush subsequent buffers in list: these are older
+    //
+
+    if (m_next)
+        written += m_next->flush(c, proc_fn);
+
     //
     // local flush
     //
@@ -66,13 +73,6 @@ size_t TraceBufferChunk::flush(Caliper* c, SnapshotFlushFn proc_fn)
 
     written += m_nrec;
 
-    //
-    // flush subsequent buffers in list
-    //
-
-    if (m_next)
-        written += m_next->flush(c, proc_fn);
-
     return written;
 }
 
-- 
2.43.0


From b525d0d85111c4c6df01fcfa1a6eae09021b0730 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 13/66] fix: trace buffers are never smaller than one snapshot
 record

---
 src/services/trace/Trace.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/services/trace/Trace.cpp b/src/services/trace/Trace.cpp
index bbf0c1a..0811ea4 100644
--- a/src/services/trace/Trace.cpp
+++ b/src/services/trace/Trace.cpp
@@ -16,6 +16,7 @@
 #include "../../common/util/spinlock.hpp"
 #include "../../common/util/unitfmt.h"
 
+#include <algorithm>
 #include <atomic>
 #include <cstring>
 #include <mutex>
@@ -277,7 +278,8 @@ class Trace
         ConfigSet cfg = services::init_config_from_spec(channel->config(), s_spec);
 
         init_overflow_policy(cfg.get("buffer_policy").to_string());
-        buffersize = cfg.get("buffer_size").to_uint() * 1024 * 1024;
+        // must be able to hold at least one snapshot record
+        buffersize = std::max<size_t>(cfg.get("buffer_size").to_uint(), 1) * 1024 * 1024;
 
         tbuf_attr = c->create_attribute(
             std::string("trace.tbuf.") + std::to_string(channel->id()),
-- 
2.43.0


From 881b94c626dfe6411e620a57d939fcc2c568f99a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 14/66] fix: a stopped trace buffer stays stopped after a
 flush, and counts its first dropped snapshot

---
 src/services/trace/Trace.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/services/trace/Trace.cpp b/src/services/trace/Trace.cpp
index 0811ea4..d5237a5 100644
--- a/src/services/trace/Trace.cpp
+++ b/src/services/trace/Trace.cpp
@@ -145,8 +145,10 @@ class Trace
 
         if (!tbuf->chunks->fits(rec))
             tbuf = handle_overflow(c, tbuf);
-        if (!tbuf)
+        if (!tbuf) {
+            ++dropped_snapshots;
             return;
+        }
 
         tbuf->chunks->save_snapshot(rec);
     }
@@ -167,9 +169,9 @@ class Trace
             // Stop tracing while we flush: writers won't block
             // but just drop the snapshot
 
-            tbuf->stopped.store(true);
+            bool was_stopped = tbuf->stopped.exchange(true);
             num_written += tbuf->chunks->flush(c, proc_fn);
-            tbuf->stopped.store(false);
+            tbuf->stopped.store(was_stopped);
         }
 
         Log(1).stream() << m_channel.name() << ": trace: Flushed " << num_written << " snapshots.\n";
-- 
2.43.0


From 8725f9c02da121be13521616bad399905f601c0e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 15/66] fix: clear the allocstats region statistics when the
 channel is cleared

---
 src/services/alloc/AllocStatsService.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/services/alloc/AllocStatsService.cpp b/src/services/alloc/AllocStatsService.cpp
index e691322..9bc14ba 100644
--- a/src/services/alloc/AllocStatsService.cpp
+++ b/src/services/alloc/AllocStatsService.cpp
@@ -161,6 +161,9 @@ class AllocStatsService
         std::lock_guard<std::mutex> g(g_region_map_lock);
 
         for (const auto& it : g_region_map) {
+            if (it.second.count == 0) // nothing recorded since the last clear
+                continue;
+
             std::vector<Entry> rec;
             rec.reserve(5);
             rec.emplace_back(it.second.path);
@@ -176,7 +179,14 @@ class AllocStatsService
 
     void clear_cb(Caliper*, Channel*) {
         std::lock_guard<std::mutex> g(g_region_map_lock);
-        g_region_map.clear();
+
+        // reset the statistics but keep track of memory that is still in use
+        for (auto& it : g_region_map) {
+            it.second.total_bytes = 0;
+            it.second.max_bytes   = 0;
+            it.second.count       = 0;
+            it.second.hwm         = it.second.current_bytes;
+        }
     }
 
     void finish_cb(Caliper* c, Channel* chn)
@@ -228,6 +238,7 @@ public:
         chn->events().flush_evt.connect([instance](Caliper* c, SnapshotView ctx, SnapshotFlushFn flush_fn){
             instance->flush_cb(c, ctx, flush_fn);
         });
+        chn->events().clear_evt.connect([instance](Caliper* c, Channel* chn) { instance->clear_cb(c, chn); });
         chn->events().finish_evt.connect([instance](Caliper* c, Channel* chn) {
             instance->finish_cb(c, chn);
             delete instance;
-- 
2.43.0


From 509e481af302c7f3b811dd45413e4cb4b65f1994 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:53:52 +0000
Subject: [PATCH 16/66] fix: aggregate attributes created after an aggregation
 entry was made

---
 src/services/aggregate/AggregationDB.cpp | 19 +++++++++++++++++++
 src/services/aggregate/AggregationDB.h   |  1 +
 2 files changed, 20 insertions(+)

diff --git a/src/services/aggregate/AggregationDB.cpp b/src/services/aggregate/AggregationDB.cpp
index c138695..faaa1b4 100644
--- a/src/services/aggregate/AggregationDB.cpp
+++ b/src/services/aggregate/AggregationDB.cpp
@@ -68,6 +68,22 @@ AggregateEntry* AggregationDB::find_or_create_entry(SnapshotView key, std::size_
     return &m_entries[entry_idx];
 }
 
+void AggregationDB::extend_kernels(AggregateEntry* entry, std::size_t num_aggr_attrs, bool can_alloc)
+{
+    // Aggregation attributes can be created after the entry: make room for them
+
+    if (!can_alloc && m_kernels.size() + num_aggr_attrs >= m_kernels.capacity())
+        return;
+
+    size_t kernels_idx = m_kernels.size();
+    m_kernels.resize(kernels_idx + num_aggr_attrs, AggregateKernel());
+
+    std::copy_n(m_kernels.begin() + entry->kernels_idx, entry->num_kernels, m_kernels.begin() + kernels_idx);
+
+    entry->kernels_idx = kernels_idx;
+    entry->num_kernels = num_aggr_attrs;
+}
+
 void AggregationDB::process_snapshot(Caliper* c, SnapshotView rec, const AttributeInfo& info)
 {
     // --- extract key entries
@@ -96,6 +112,9 @@ void AggregationDB::process_snapshot(Caliper* c, SnapshotView rec, const Attribu
 
     ++entry->count;
 
+    if (entry->num_kernels < info.aggr_attrs.size() && entry != &m_entries[0])
+        extend_kernels(entry, info.aggr_attrs.size(), !c->is_signal());
+
     for (size_t a = 0; a < std::min(entry->num_kernels, info.aggr_attrs.size()); ++a) {
         Entry e = rec.get_immediate_entry(info.aggr_attrs[a]);
 
diff --git a/src/services/aggregate/AggregationDB.h b/src/services/aggregate/AggregationDB.h
index 44020cd..a2d6d7e 100644
--- a/src/services/aggregate/AggregationDB.h
+++ b/src/services/aggregate/AggregationDB.h
@@ -126,6 +126,7 @@ class AggregationDB
     std::vector<size_t>          m_hashmap;
 
     AggregateEntry* find_or_create_entry(cali::SnapshotView key, std::size_t hash, std::size_t num_aggr_attrs, bool can_alloc);
+    void            extend_kernels(AggregateEntry* entry, std::size_t num_aggr_attrs, bool can_alloc);
 
 public:
 
-- 
2.43.0


From 7758ae08336745d5faef51221831188b78faac99 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:54:44 +0000
Subject: [PATCH 17/66] fix: aggregate by all key entries of a snapshot instead
 of the first 16

---
 src/services/aggregate/AggregationDB.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/services/aggregate/AggregationDB.cpp b/src/services/aggregate/AggregationDB.cpp
index faaa1b4..1969ce9 100644
--- a/src/services/aggregate/AggregationDB.cpp
+++ b/src/services/aggregate/AggregationDB.cpp
@@ -17,7 +17,8 @@
 using namespace cali;
 using namespace aggregate;
 
-#define MAX_KEYLEN 16
+// At least as many as entries in a snapshot record, so that no key entries are dropped
+#define MAX_KEYLEN 128
 
 AggregateEntry* AggregationDB::find_or_create_entry(SnapshotView key, std::size_t hash, std::size_t num_aggr_attrs, bool can_alloc)
 {
-- 
2.43.0


From 159aa78c7cf4c827e69e786a674c967f38c1baf1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:55:43 +0000
Subject: [PATCH 18/66] fix: keep the key of the skipped-records aggregation
 entry when clearing

---
 src/services/aggregate/AggregationDB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/services/aggregate/AggregationDB.cpp b/src/services/aggregate/AggregationDB.cpp
index 1969ce9..b75bf7c 100644
--- a/src/services/aggregate/AggregationDB.cpp
+++ b/src/services/aggregate/AggregationDB.cpp
@@ -131,7 +131,7 @@ void AggregationDB::clear()
     m_hashmap.assign(m_hashmap.size(), 0);
     m_entries.resize(1);
     m_kernels.resize(0);
-    m_keyents.resize(0);
+    m_keyents.resize(1); // keep the key of the "skipped" entry
 
     m_entries[0].count = 0;
 }
-- 
2.43.0


From b8695b30237de8bcea372d5138590ab7b4f60bde Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:00:12 +0000
Subject: [PATCH 19/66] fix: event branch filter selects the regions inside a
 branch of the calling thread

---
 src/services/event/EventTrigger.cpp | 47 +++++++++++++++++------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/services/event/EventTrigger.cpp b/src/services/event/EventTrigger.cpp
index 9e494c8..6d24401 100644
--- a/src/services/event/EventTrigger.cpp
+++ b/src/services/event/EventTrigger.cpp
@@ -28,6 +28,7 @@ namespace cali
 {
 extern Attribute subscription_event_attr; // From api.cpp
 extern Attribute phase_attr;
+extern Attribute region_attr;
 } // namespace cali
 
 namespace
@@ -58,8 +59,6 @@ class EventTrigger
     RegionFilter region_filter;
     RegionFilter branch_filter;
 
-    std::vector<Variant> branch_filter_stack;
-
     std::string channel_name;
 
     //
@@ -143,6 +142,26 @@ class EventTrigger
         return attr.get(cali::subscription_event_attr).to_bool();
     }
 
+    //   Check if the given region or any of the currently open regions is selected by the branch filter
+    bool in_branch(Caliper* c, const Attribute& attr, const Variant& value)
+    {
+        if (attr.type() == CALI_TYPE_STRING && branch_filter.pass(value))
+            return true;
+
+        for (const Entry& e : { c->get_blackboard_entry(region_attr), c->get_blackboard_entry(attr) }) {
+            if (!e.is_reference())
+                continue;
+            for (const Node* node = e.node(); node; node = node->parent()) {
+                if (node->data().type() != CALI_TYPE_STRING || !branch_filter.pass(node->data()))
+                    continue;
+                if (find_marker(c->get_attribute(node->attribute())))
+                    return true;
+            }
+        }
+
+        return false;
+    }
+
     //
     // --- Callbacks
     //
@@ -155,12 +174,8 @@ class EventTrigger
             return;
         if (attr.type() == CALI_TYPE_STRING && !region_filter.pass(value))
             return;
-        if (branch_filter.has_filters()) {
-            if (branch_filter.pass(value))
-                branch_filter_stack.push_back(value);
-            if (branch_filter_stack.empty())
-                return;
-        }
+        if (branch_filter.has_filters() && !in_branch(c, attr, value))
+            return;
 
         if (enable_snapshot_info) {
             assert(!marker_node->data().empty());
@@ -199,12 +214,8 @@ class EventTrigger
             return;
         if (attr.type() == CALI_TYPE_STRING && !region_filter.pass(value))
             return;
-        if (branch_filter.has_filters()) {
-            if (branch_filter.pass(value))
-                branch_filter_stack.push_back(value);
-            if (branch_filter_stack.empty())
-                return;
-        }
+        if (branch_filter.has_filters() && !in_branch(c, attr, value))
+            return;
 
         if (enable_snapshot_info) {
             assert(!marker_node->data().empty());
@@ -235,12 +246,8 @@ class EventTrigger
             return;
         if (attr.type() == CALI_TYPE_STRING && !region_filter.pass(value))
             return;
-        if (branch_filter.has_filters()) {
-            if (branch_filter_stack.empty())
-                return;
-            if (value == branch_filter_stack.back())
-                branch_filter_stack.pop_back();
-        }
+        if (branch_filter.has_filters() && !in_branch(c, attr, value))
+            return;
 
         if (enable_snapshot_info) {
             assert(!marker_node->data().empty());
-- 
2.43.0


From 7b35f9c38f431cdb6c461a3b7738fc31a2d5b536 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 20/66] fix: copies of a channel controller outlive the
 original object safely

---
 src/caliper/ChannelController.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/caliper/ChannelController.cpp b/src/caliper/ChannelController.cpp
index a3998da..d659839 100644
--- a/src/caliper/ChannelController.cpp
+++ b/src/caliper/ChannelController.cpp
@@ -98,8 +98,10 @@ Channel ChannelController::create()
     add_channel_metadata(c, mP->channel, mP->metadata);
 
     //   Reset the object's channel pointer if the channel is destroyed
-    // behind our back (e.g., in Caliper::release())
-    mP->channel.events().finish_evt.connect([this](Caliper*, Channel*) { mP->channel = Channel(); });
+    // behind our back (e.g., in Caliper::release()). The channel doesn't outlive the impl object,
+    // but it can outlive this particular controller object if there are copies.
+    ChannelControllerImpl* impl = mP.get();
+    mP->channel.events().finish_evt.connect([impl](Caliper*, Channel*) { impl->channel = Channel(); });
 
     return mP->channel;
 }
-- 
2.43.0


From 1853849ff5a208951be9059a4af19302e8aae059 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 21/66] fix: loop monitor target loops are matched by their
 full name

---
 src/services/monitor/LoopMonitor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/services/monitor/LoopMonitor.cpp b/src/services/monitor/LoopMonitor.cpp
index 5ead469..2e082f6 100644
--- a/src/services/monitor/LoopMonitor.cpp
+++ b/src/services/monitor/LoopMonitor.cpp
@@ -9,6 +9,7 @@
 #include "caliper/common/Log.h"
 
 #include <chrono>
+#include <cstring>
 #include <vector>
 
 using namespace cali;
@@ -48,7 +49,7 @@ class LoopMonitor
             return true;
 
         for (const std::string& s : target_loops)
-            if (strncmp(static_cast<const char*>(value.data()), s.data(), s.size()) == 0)
+            if (value.size() == s.size() && memcmp(value.data(), s.data(), s.size()) == 0)
                 return true;
 
         return false;
-- 
2.43.0


From 082fd1217fc14124f03d515d0d36a99c71a83988 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 22/66] fix: region monitor ignores the end of regions opened
 before activation

---
 src/services/monitor/RegionMonitor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/services/monitor/RegionMonitor.cpp b/src/services/monitor/RegionMonitor.cpp
index 5bdb75d..f4a70b7 100644
--- a/src/services/monitor/RegionMonitor.cpp
+++ b/src/services/monitor/RegionMonitor.cpp
@@ -77,6 +77,10 @@ class RegionMonitor
         if (!node)
             return;
 
+        // Skip regions that were already open when the channel was activated
+        if (m_time_stack.empty())
+            return;
+
         auto now  = std::chrono::high_resolution_clock::now();
         auto prev = m_time_stack.back();
         m_time_stack.pop_back();
-- 
2.43.0


From 8fea0c94a6a0e9982b35877d6a44f322cd791dfa Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:23:41 +0000
Subject: [PATCH 23/66] fix: record allocation sizes of 2 GiB and more without
 truncation

---
 src/services/alloc/AllocService.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/services/alloc/AllocService.cpp b/src/services/alloc/AllocService.cpp
index f607947..23aaaf1 100644
--- a/src/services/alloc/AllocService.cpp
+++ b/src/services/alloc/AllocService.cpp
@@ -208,7 +208,7 @@ class AllocService
                 c,
                 chB,
                 info.alloc_label_node,
-                Variant(static_cast<int>(total_size)),
+                Variant(cali_make_variant_from_int64(static_cast<int64_t>(total_size))),
                 info.v_uid,
                 Variant(CALI_TYPE_ADDR, &ptr, sizeof(void*))
             );
@@ -256,7 +256,7 @@ class AllocService
                 c,
                 chB,
                 info.free_label_node,
-                Variant(-static_cast<int>(info.total_size)),
+                Variant(cali_make_variant_from_int64(-static_cast<int64_t>(info.total_size))),
                 info.v_uid,
                 Variant(CALI_TYPE_ADDR, &ptr, sizeof(void*))
             );
-- 
2.43.0


From 47006af3524f1b860d74a1b551494e8fa4569188 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:24:51 +0000
Subject: [PATCH 24/66] fix: a tracked memory region replaced by another one at
 the same address is no longer counted

---
 src/services/alloc/AllocService.cpp      | 26 ++++++++++++++++--------
 src/services/alloc/AllocStatsService.cpp | 18 +++++++++++++---
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/services/alloc/AllocService.cpp b/src/services/alloc/AllocService.cpp
index 23aaaf1..217f5af 100644
--- a/src/services/alloc/AllocService.cpp
+++ b/src/services/alloc/AllocService.cpp
@@ -213,22 +213,32 @@ class AllocService
                 Variant(CALI_TYPE_ADDR, &ptr, sizeof(void*))
             );
 
-        {
-            std::lock_guard<std::mutex> g(g_hwm_lock);
-
-            g_active_mem += total_size;
-            g_hwm        = std::max(g_hwm, g_active_mem);
-            g_region_hwm = std::max(g_region_hwm, g_active_mem);
-        }
+        uint64_t replaced_size = 0;
 
         {
             std::lock_guard<std::mutex> g(g_tree_lock);
 
+            // A region tracked earlier at the same address is replaced
+            auto tree_node = g_tree.find(HasStartAddress(info.start_addr));
+
+            if (tree_node)
+                replaced_size = (*tree_node).total_size;
+            else
+                ++g_current_tracked;
+
             g_tree.insert(info);
 
-            g_max_tracked = std::max(++g_current_tracked, g_max_tracked);
+            g_max_tracked = std::max(g_current_tracked, g_max_tracked);
             ++g_total_tracked;
         }
+
+        {
+            std::lock_guard<std::mutex> g(g_hwm_lock);
+
+            g_active_mem += total_size - replaced_size;
+            g_hwm        = std::max(g_hwm, g_active_mem);
+            g_region_hwm = std::max(g_region_hwm, g_active_mem);
+        }
     }
 
     void untrack_mem_cb(Caliper* c, ChannelBody* chB, const void* ptr)
diff --git a/src/services/alloc/AllocStatsService.cpp b/src/services/alloc/AllocStatsService.cpp
index 9bc14ba..7c8ee1d 100644
--- a/src/services/alloc/AllocStatsService.cpp
+++ b/src/services/alloc/AllocStatsService.cpp
@@ -72,17 +72,29 @@ class AllocStatsService
         if (!path)
             return;
 
+        AllocInfo replaced { 0, nullptr };
+
         {
             AllocInfo info { size, path };
             std::lock_guard<std::mutex> g(g_alloc_map_lock);
-            g_alloc_map[addr] = info;
+            auto p = g_alloc_map.emplace(addr, info);
+
+            if (p.second)
+                ++g_current_tracked;
+            else {
+                // An allocation tracked earlier at the same address is replaced
+                replaced = p.first->second;
+                p.first->second = info;
+            }
 
-            g_max_tracked = std::max(++g_current_tracked, g_max_tracked);
+            g_max_tracked = std::max(g_current_tracked, g_max_tracked);
             ++g_total_tracked;
         }
 
         {
             std::lock_guard<std::mutex> g(g_region_map_lock);
+            if (replaced.path)
+                g_region_map[replaced.path->id()].current_bytes -= replaced.bytes;
             auto it = g_region_map.find(path->id());
             if (it == g_region_map.end()) {
                 RegionInfo info { size, size, size, size, 1ull, path };
@@ -99,7 +111,7 @@ class AllocStatsService
         {
             std::lock_guard<std::mutex> g(g_hwm_lock);
 
-            g_active_mem += size;
+            g_active_mem += size - replaced.bytes;
             g_region_hwm = std::max(g_region_hwm, g_active_mem);
         }
     }
-- 
2.43.0


From 5bb046466f6622240e7a73249862262be7bd5690 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:24:51 +0000
Subject: [PATCH 25/66] fix: tracking a memory region with element size zero
 does not crash

---
 src/services/alloc/AllocService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/services/alloc/AllocService.cpp b/src/services/alloc/AllocService.cpp
index 217f5af..107cf64 100644
--- a/src/services/alloc/AllocService.cpp
+++ b/src/services/alloc/AllocService.cpp
@@ -184,7 +184,7 @@ class AllocService
         info.total_size = total_size;
         info.v_uid      = Variant(cali_make_variant_from_uint(++g_alloc_uid));
         info.elem_size  = elem_size;
-        info.num_elems  = total_size / elem_size;
+        info.num_elems  = elem_size > 0 ? total_size / elem_size : 0;
 
         Variant v_label(label);
 
-- 
2.43.0


From 5064ca4370bc50635c45d601bb9a6c65d3f10a39 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:04:22 +0000
Subject: [PATCH 26/66] fix: keep non-ASCII characters when writing strings

---
 src/common/util/format_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/util/format_util.h b/src/common/util/format_util.h
index be55f3b..8f479d6 100644
--- a/src/common/util/format_util.h
+++ b/src/common/util/format_util.h
@@ -39,7 +39,7 @@ inline std::ostream& write_json_esc_string(std::ostream& os, const char* str, st
             os.put('\\');
             os.put('n');
         }
-        if (c < 0x20) // skip control characters
+        if (static_cast<unsigned char>(c) < 0x20) // skip control characters
             continue;
         if (c == '\\' || c == '\"')
             os.put('\\');
@@ -57,7 +57,7 @@ inline std::ostream& write_cali_esc_string(std::ostream& os, const char* str, st
     for (size_t i = 0; i < size; ++i) {
         const char c = str[i];
 
-        if (c < 0x20) {
+        if (static_cast<unsigned char>(c) < 0x20) {
             if (c == '\n') { // handle newline in string
                 os.put('\\');
                 os.put('n');
-- 
2.43.0


From 13eb1484f5f77c3dfb05e4bd4b40dc27dd7149e4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:04:22 +0000
Subject: [PATCH 27/66] fix: write doubles with enough digits to read the same
 value back

---
 src/common/Variant.cpp | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/common/Variant.cpp b/src/common/Variant.cpp
index 3614e2b..a39ff64 100644
--- a/src/common/Variant.cpp
+++ b/src/common/Variant.cpp
@@ -13,6 +13,7 @@
 
 #include <algorithm>
 #include <cctype>
+#include <cstdio>
 #include <cstdlib>
 #include <cstring>
 #include <iomanip>
@@ -21,6 +22,31 @@
 
 using namespace cali;
 
+namespace
+{
+
+/// \brief Write \a val with as few digits as needed to read the same value back
+std::ostream& write_double(std::ostream& os, double val)
+{
+    int  digits = 6;
+    char buf[32];
+
+    for (int d : { 6, 15, 16, 17 }) {
+        digits = d;
+        snprintf(buf, sizeof(buf), "%.*g", digits, val);
+        if (std::strtod(buf, nullptr) == val)
+            break;
+    }
+
+    std::streamsize p = os.precision(digits);
+    os << val;
+    os.precision(p);
+
+    return os;
+}
+
+} // namespace
+
 cali_id_t Variant::to_id(bool* okptr) const
 {
     bool      ok = false;
@@ -158,7 +184,7 @@ std::ostream& Variant::write_cali(std::ostream& os)
         os << m_v.value.v_int;
         break;
     case CALI_TYPE_DOUBLE:
-        os << m_v.value.v_double;
+        write_double(os, m_v.value.v_double);
         break;
     case CALI_TYPE_UINT:
         util::write_uint64(os, m_v.value.v_uint);
-- 
2.43.0


From 89127e529c12bd921883515d9f2538feeaea23c1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:04:22 +0000
Subject: [PATCH 28/66] fix: Python reader keeps its built-in type nodes
 (pointer attributes have type ptr)

---
 python/caliper-reader/caliperreader/metadatadb.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/caliper-reader/caliperreader/metadatadb.py b/python/caliper-reader/caliperreader/metadatadb.py
index a926729..f3f97ed 100644
--- a/python/caliper-reader/caliperreader/metadatadb.py
+++ b/python/caliper-reader/caliperreader/metadatadb.py
@@ -279,6 +279,10 @@ class MetadataDB:
         }
 
     def import_node(self, node_id, attribute_id, data, parent_id = Node.CALI_INV_ID):
+        # The hard-coded bootstrap nodes are already there
+        if node_id < 12:
+            return
+
         node = Node(self, node_id, attribute_id, data)
         self.nodes[node_id] = node
 
-- 
2.43.0


From 7bd92bfa9647fcf338648aa860fe0d6e5b35ee71 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:04:22 +0000
Subject: [PATCH 29/66] fix: Python reader keeps trailing blanks, trailing
 empty values and paths in several references

---
 .../caliperreader/caliperstreamreader.py       | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/python/caliper-reader/caliperreader/caliperstreamreader.py b/python/caliper-reader/caliperreader/caliperstreamreader.py
index eee9a0e..4364bdb 100644
--- a/python/caliper-reader/caliperreader/caliperstreamreader.py
+++ b/python/caliper-reader/caliperreader/caliperstreamreader.py
@@ -94,7 +94,11 @@ class CaliperStreamReader:
 
         if 'ref' in record:
             for node_id in record['ref']:
-                result.update(self.db.nodes[int(node_id)].expand())
+                for key, val in self.db.nodes[int(node_id)].expand().items():
+                    if key in result:
+                        result[key] = _as_list(result[key]) + _as_list(val)
+                    else:
+                        result[key] = val
 
         if 'attr' in record and 'data' in record:
             for attr_id, val in zip(record['attr'], record['data']):
@@ -105,6 +109,10 @@ class CaliperStreamReader:
         return result
 
 
+def _as_list(val):
+    return val if isinstance(val, list) else [ val ]
+
+
 def _read_cali_record(line):
     """ Splits comma-separated Caliper record line into constituent elements
 
@@ -129,7 +137,7 @@ def _read_cali_record(line):
     entry   = []
     string  = ""
 
-    iterator = iter(line.strip())
+    iterator = iter(line.rstrip('\r\n'))
 
     for c in iterator:
         if c == '\\':
@@ -149,8 +157,8 @@ def _read_cali_record(line):
         else:
             string += c
 
-    if len(string) > 0:
-        entry.append(string)
-        result[entry[0]] = entry[1:]
+    # the last element may be empty
+    entry.append(string)
+    result[entry[0]] = entry[1:]
 
     return result
-- 
2.43.0


From 333bbe2c9cc0dc1cf1b4b6eb71463c8c8ef3290e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:04:36 +0000
Subject: [PATCH 30/66] fix: read trailing empty values and empty records

---
 src/reader/CaliReader.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/reader/CaliReader.cpp b/src/reader/CaliReader.cpp
index bf8479a..42357bc 100644
--- a/src/reader/CaliReader.cpp
+++ b/src/reader/CaliReader.cpp
@@ -46,7 +46,7 @@ public:
 
     inline bool matches(size_t N, const char* key)
     {
-        if (it_ + N < end_) {
+        if (N <= static_cast<size_t>(end_ - it_)) {
             if (std::equal(it_, it_ + N, key)) {
                 it_ += N;
                 return true;
@@ -55,6 +55,11 @@ public:
         return false;
     }
 
+    inline bool matches_all(size_t N, const char* key)
+    {
+        return N == static_cast<size_t>(end_ - it_) && matches(N, key);
+    }
+
     std::string context() { return std::string { it_, end_ }; }
 };
 
@@ -242,9 +247,9 @@ struct CaliReader::CaliReaderImpl {
     {
         if (is.matches(11, "__rec=node,")) {
             read_node(is, db, idmap, node_proc);
-        } else if (is.matches(10, "__rec=ctx,")) {
+        } else if (is.matches(10, "__rec=ctx,") || is.matches_all(9, "__rec=ctx")) {
             read_snapshot(is, db, idmap, snap_proc);
-        } else if (is.matches(14, "__rec=globals,")) {
+        } else if (is.matches(14, "__rec=globals,") || is.matches_all(13, "__rec=globals")) {
             read_globals(is, db, idmap);
         } else {
             set_error(std::string("Unknown/invalid record: ") + is.context());
-- 
2.43.0


From bc7aa1b4f811dabdbaa2bd5e16ac535703d0872f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:04:36 +0000
Subject: [PATCH 31/66] fix: data reader rejects invalid nodes and references
 instead of crashing or using other files' nodes

---
 src/reader/CaliReader.cpp        | 29 +++++++++++++++++++++++++----
 src/reader/CaliperMetadataDB.cpp |  4 ++--
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/reader/CaliReader.cpp b/src/reader/CaliReader.cpp
index 42357bc..7bdf304 100644
--- a/src/reader/CaliReader.cpp
+++ b/src/reader/CaliReader.cpp
@@ -147,6 +147,13 @@ struct CaliReader::CaliReaderImpl {
         m_error_msg = msg;
     }
 
+    /// \brief References must be to nodes defined in the stream or hard-coded nodes,
+    ///   not to nodes the database may have from elsewhere
+    static bool is_known(cali_id_t id, const IdMap& idmap)
+    {
+        return id < 12 || idmap.count(id) > 0;
+    }
+
     void read_node(fast_istringstream& is, CaliperMetadataDB& db, IdMap& idmap, NodeProcessFn& node_proc)
     {
         cali_id_t   attr_id = CALI_INV_ID;
@@ -172,6 +179,11 @@ struct CaliReader::CaliReaderImpl {
             return;
         }
 
+        if (!is_known(attr_id, idmap) || (prnt_id != CALI_INV_ID && !is_known(prnt_id, idmap))) {
+            set_error("Node record refers to an unknown node");
+            return;
+        }
+
         const Node* node = db.merge_node(node_id, attr_id, prnt_id, data_str, idmap);
 
         if (node)
@@ -203,10 +215,17 @@ struct CaliReader::CaliReaderImpl {
         std::vector<Entry> rec;
         rec.reserve(refs.size() + std::min(attr.size(), data.size()));
 
+        auto add_entry = [&rec, this](const Entry& e) {
+            if (e.empty())
+                set_error("Invalid node or attribute reference in snapshot record");
+            else
+                rec.push_back(e);
+        };
+
         for (cali_id_t id : refs)
-            rec.push_back(db.merge_entry(id, idmap));
+            add_entry(is_known(id, idmap) ? db.merge_entry(id, idmap) : Entry());
         for (size_t i = 0; i < std::min(attr.size(), data.size()); ++i)
-            rec.push_back(db.merge_entry(attr[i], data[i], idmap));
+            add_entry(is_known(attr[i], idmap) ? db.merge_entry(attr[i], data[i], idmap) : Entry());
 
         snap_proc(db, rec);
     }
@@ -232,9 +251,11 @@ struct CaliReader::CaliReaderImpl {
             set_error("attr / data size mismatch");
 
         for (cali_id_t id : refs)
-            db.merge_global(id, idmap);
+            if (is_known(id, idmap))
+                db.merge_global(id, idmap);
         for (size_t i = 0; i < std::min(attr.size(), data.size()); ++i)
-            db.merge_global(attr[i], data[i], idmap);
+            if (is_known(attr[i], idmap))
+                db.merge_global(attr[i], data[i], idmap);
     }
 
     void read_record(
diff --git a/src/reader/CaliperMetadataDB.cpp b/src/reader/CaliperMetadataDB.cpp
index da4dfe6..7869386 100644
--- a/src/reader/CaliperMetadataDB.cpp
+++ b/src/reader/CaliperMetadataDB.cpp
@@ -224,8 +224,8 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
 
         Node* node = merge_node(node_id, attr_id, prnt_id, v_data);
 
-        if (node_id != node->id())
-            idmap.insert(std::make_pair(node_id, node->id()));
+        if (node)
+            idmap[node_id] = node->id();
 
         return node;
     }
-- 
2.43.0


From 7799be4c614185447122cea6f6abc66b3685cfcf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:10:14 +0000
Subject: [PATCH 32/66] fix: keep quoted formatter arguments intact when
 parsing a query

---
 src/reader/CalQLParser.cpp | 40 +++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/reader/CalQLParser.cpp b/src/reader/CalQLParser.cpp
index 5e3aa40..a659917 100644
--- a/src/reader/CalQLParser.cpp
+++ b/src/reader/CalQLParser.cpp
@@ -36,17 +36,13 @@ int get_definition_id(const std::string& w, const QuerySpec::FunctionSignature*
 
 std::pair<std::string, std::string> get_keyval(const std::string& str)
 {
-    std::istringstream is(str);
+    // quotes and escapes have already been processed in parse_arglist()
+    auto p = str.find('=');
 
-    std::string first = util::read_word(is, "=");
-    char        c     = util::read_char(is);
+    if (p == std::string::npos)
+        return std::make_pair(std::string(), str);
 
-    if (c == '=') {
-        std::string val = util::read_word(is);
-        return std::make_pair(std::move(first), std::move(val));
-    } else {
-        return std::make_pair(std::string(), std::move(first));
-    }
+    return std::make_pair(str.substr(0, p), str.substr(p + 1));
 }
 
 bool is_in_arglist(const std::string& s, const QuerySpec::FunctionSignature& sig)
@@ -116,7 +112,8 @@ struct CalQLParser::CalQLParserImpl {
     }
 
     /// \brief Parse "(arg1, arg2, ...)" argument list, ignoring whitespace
-    std::vector<std::string> parse_arglist(std::istream& is)
+    /// If given, \a quoted returns which of the arguments start with a quoted or escaped character
+    std::vector<std::string> parse_arglist(std::istream& is, std::vector<bool>* quoted = nullptr)
     {
         std::vector<std::string> ret;
         std::string              word;
@@ -132,11 +129,17 @@ struct CalQLParser::CalQLParserImpl {
         }
 
         do {
+            char first = util::read_char(is);
+            is.unget();
+
             std::string str = util::read_word(is, ",;()\n");
             c               = util::read_char(is);
 
-            if (!str.empty() && (c == ',' || c == ')'))
+            if (!str.empty() && (c == ',' || c == ')')) {
                 ret.push_back(str);
+                if (quoted)
+                    quoted->push_back(first == '"' || first == '\\');
+            }
         } while (is.good() && c == ',');
 
         if (c != ')') {
@@ -151,6 +154,7 @@ struct CalQLParser::CalQLParserImpl {
     std::map<std::string, std::string> make_kwargs(
         const QuerySpec::FunctionSignature& sig,
         const std::vector<std::string>&     args,
+        const std::vector<bool>&            quoted,
         std::istream&                       is
     )
     {
@@ -159,11 +163,10 @@ struct CalQLParser::CalQLParserImpl {
 
         for (int i = 0; i < n; ++i) {
             auto p = get_keyval(args[i]);
-            if (p.first.empty()) {
-                if (is_in_arglist(p.second, sig))
-                    ret[p.second] = std::string("true"); // support boolean flags like in JsonFormatter
-                else
-                    ret[sig.args[i]] = p.second; // use name of positional argument
+            if (is_in_arglist(args[i], sig)) {
+                ret[args[i]] = std::string("true"); // support boolean flags like in JsonFormatter
+            } else if (p.first.empty() || (quoted[i] && !is_in_arglist(p.first, sig))) {
+                ret[sig.args[i]] = args[i]; // use name of positional argument
             } else {
                 if (is_in_arglist(p.first, sig)) {
                     ret[p.first] = p.second;
@@ -227,7 +230,8 @@ struct CalQLParser::CalQLParserImpl {
             return;
         }
 
-        std::vector<std::string> args    = parse_arglist(is);
+        std::vector<bool>        quoted;
+        std::vector<std::string> args    = parse_arglist(is, &quoted);
         int                      argsize = static_cast<int>(args.size());
 
         if (defs[i].min_args > argsize || defs[i].max_args < argsize)
@@ -235,7 +239,7 @@ struct CalQLParser::CalQLParserImpl {
         else {
             spec.format.opt       = QuerySpec::FormatSpec::User;
             spec.format.formatter = defs[i];
-            spec.format.kwargs    = make_kwargs(defs[i], args, is);
+            spec.format.kwargs    = make_kwargs(defs[i], args, quoted, is);
         }
     }
 
-- 
2.43.0


From 873ea79546873f9e9c673290129fc4a5f8796020 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:10:14 +0000
Subject: [PATCH 33/66] fix: select * followed by an attribute name still
 selects all attributes

---
 src/reader/CalQLParser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/reader/CalQLParser.cpp b/src/reader/CalQLParser.cpp
index a659917..0d391da 100644
--- a/src/reader/CalQLParser.cpp
+++ b/src/reader/CalQLParser.cpp
@@ -323,8 +323,10 @@ struct CalQLParser::CalQLParserImpl {
                     if (w.empty())
                         set_error("Expected argument for SELECT", is);
                     else {
-                        spec.select.selection = QuerySpec::AttributeSelection::List;
-                        spec.select.list.push_back(w);
+                        if (spec.select.selection != QuerySpec::AttributeSelection::All) {
+                            spec.select.selection = QuerySpec::AttributeSelection::List;
+                            spec.select.list.push_back(w);
+                        }
 
                         selection_attr_name = w;
                     }
-- 
2.43.0


From 136d9943c91d601a7372744dd481631123c11553 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:10:35 +0000
Subject: [PATCH 34/66] fix: a printed query reads back as the same query

---
 src/reader/QuerySpec.cpp | 74 ++++++++++++++++++++++++++++------------
 1 file changed, 53 insertions(+), 21 deletions(-)

diff --git a/src/reader/QuerySpec.cpp b/src/reader/QuerySpec.cpp
index 0e303c0..c689575 100644
--- a/src/reader/QuerySpec.cpp
+++ b/src/reader/QuerySpec.cpp
@@ -3,6 +3,7 @@
 
 #include "caliper/reader/QuerySpec.h"
 
+#include <set>
 #include <sstream>
 
 using namespace cali;
@@ -12,32 +13,47 @@ const cali::QuerySpec::FunctionSignature cali::QuerySpec::FunctionSignatureTermi
 namespace
 {
 
+/// \brief Write \a w so that the parser reads it as a single word
+std::string quote(const std::string& w)
+{
+    if (!w.empty() && w.front() != '*' && w.find_first_of(",;=<>()\"\\ \t\n\v\f\r") == std::string::npos)
+        return w;
+
+    std::string ret = "\"";
+    for (char c : w) {
+        if (c == '"' || c == '\\')
+            ret.push_back('\\');
+        ret.push_back(c);
+    }
+    return ret.append("\"");
+}
+
 std::ostream& format_condition(std::ostream& os, const QuerySpec::Condition& cond)
 {
     switch (cond.op) {
     case QuerySpec::Condition::Op::Exist:
-        os << cond.attr_name;
+        os << quote(cond.attr_name);
         break;
     case QuerySpec::Condition::Op::NotExist:
-        os << " not " << cond.attr_name;
+        os << " not " << quote(cond.attr_name);
         break;
     case QuerySpec::Condition::Op::Equal:
-        os << cond.attr_name << '=' << cond.value;
+        os << quote(cond.attr_name) << '=' << quote(cond.value);
         break;
     case QuerySpec::Condition::Op::NotEqual:
-        os << " not " << cond.attr_name << '=' << cond.value;
+        os << " not " << quote(cond.attr_name) << '=' << quote(cond.value);
         break;
     case QuerySpec::Condition::Op::LessThan:
-        os << cond.attr_name << '<' << cond.value;
+        os << quote(cond.attr_name) << '<' << quote(cond.value);
         break;
     case QuerySpec::Condition::Op::GreaterThan:
-        os << cond.attr_name << '>' << cond.value;
+        os << quote(cond.attr_name) << '>' << quote(cond.value);
         break;
     case QuerySpec::Condition::Op::LessOrEqual:
-        os << " not " << cond.attr_name << ">" << cond.value;
+        os << " not " << quote(cond.attr_name) << ">" << quote(cond.value);
         break;
     case QuerySpec::Condition::Op::GreaterOrEqual:
-        os << " not " << cond.attr_name << "<" << cond.value;
+        os << " not " << quote(cond.attr_name) << "<" << quote(cond.value);
         break;
     default:
         break;
@@ -47,11 +63,11 @@ std::ostream& format_condition(std::ostream& os, const QuerySpec::Condition& con
 
 std::ostream& format_preprocess_op(std::ostream& os, const QuerySpec::PreprocessSpec& spec)
 {
-    os << spec.target << '=' << spec.op.op.name << '(';
+    os << quote(spec.target) << '=' << spec.op.op.name << '(';
 
     int count = 0;
     for (const std::string& arg : spec.op.args)
-        os << (count++ == 0 ? "" : ", ") << arg;
+        os << (count++ == 0 ? "" : ", ") << quote(arg);
     os << ')';
 
     if (spec.cond.op != QuerySpec::Condition::Op::None)
@@ -65,7 +81,7 @@ std::ostream& format_aggregation_op(std::ostream& os, const QuerySpec::Aggregati
     os << op.op.name << '(';
     int count = 0;
     for (const std::string& arg : op.args)
-        os << (count == 0 ? "" : ", ") << arg;
+        os << (count++ == 0 ? "" : ", ") << quote(arg);
     return os << ')';
 }
 
@@ -88,22 +104,38 @@ std::ostream& operator<< (std::ostream& os, const QuerySpec& spec)
             format_aggregation_op(os << (count++ == 0 ? " aggregate " : ", "), op);
     }
 
+    auto format_selection = [&](const std::string& s) {
+        auto as_it = spec.aliases.find(s);
+        if (as_it != spec.aliases.end())
+            os << " as " << quote(as_it->second);
+        auto unit_it = spec.units.find(s);
+        if (unit_it != spec.units.end())
+            os << " unit " << quote(unit_it->second);
+    };
+
     if (spec.select.selection == QuerySpec::AttributeSelection::All) {
         os << " select *";
+        // names with an alias or unit must be listed even though they are selected already
+        std::set<std::string> names;
+        for (const auto& p : spec.aliases)
+            names.insert(p.first);
+        for (const auto& p : spec.units)
+            names.insert(p.first);
+        for (const std::string& s : names)
+            if (!s.empty()) {
+                os << ", " << quote(s);
+                format_selection(s);
+            }
     } else if (spec.select.selection == QuerySpec::AttributeSelection::List) {
         int count = 0;
         if (spec.select.use_path) {
             os << " select path";
+            format_selection("path");
             ++count;
         }
         for (const std::string& s : spec.select.list) {
-            os << (count++ == 0 ? " select " : ", ") << s;
-            auto as_it = spec.aliases.find(s);
-            if (as_it != spec.aliases.end())
-                os << " as " << as_it->second;
-            auto unit_it = spec.units.find(s);
-            if (unit_it != spec.units.end())
-                os << " unit " << unit_it->second;
+            os << (count++ == 0 ? " select " : ", ") << quote(s);
+            format_selection(s);
         }
     }
 
@@ -114,7 +146,7 @@ std::ostream& operator<< (std::ostream& os, const QuerySpec& spec)
             ++count;
         }
         for (const std::string& s : spec.groupby.list)
-            os << (count++ == 0 ? " group by " : ", ") << s;
+            os << (count++ == 0 ? " group by " : ", ") << quote(s);
     }
 
     if (spec.filter.selection == QuerySpec::FilterSelection::List) {
@@ -126,7 +158,7 @@ std::ostream& operator<< (std::ostream& os, const QuerySpec& spec)
     if (spec.sort.selection == QuerySpec::SortSelection::List) {
         int count = 0;
         for (const QuerySpec::SortSpec& s : spec.sort.list) {
-            os << (count++ == 0 ? " order by " : ", ") << s.attribute << (s.order == QuerySpec::SortSpec::Descending ? " DESC" : " ASC");
+            os << (count++ == 0 ? " order by " : ", ") << quote(s.attribute) << (s.order == QuerySpec::SortSpec::Descending ? " DESC" : " ASC");
         }
     }
 
@@ -135,7 +167,7 @@ std::ostream& operator<< (std::ostream& os, const QuerySpec& spec)
         if (!spec.format.kwargs.empty()) {
             int count = 0;
             for (const auto &p : spec.format.kwargs)
-                os << (count++ == 0 ? "(" : ", ") << p.first << '=' << p.second;
+                os << (count++ == 0 ? "(" : ", ") << p.first << '=' << quote(p.second);
             os << ')';
         }
     }
-- 
2.43.0


From f7110f20e694b70a7a8967a2e8e8914daf2a7f96 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:15:57 +0000
Subject: [PATCH 35/66] fix: a LET term without a result attribute name is an
 error

---
 src/reader/CalQLParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reader/CalQLParser.cpp b/src/reader/CalQLParser.cpp
index 0d391da..54ce16f 100644
--- a/src/reader/CalQLParser.cpp
+++ b/src/reader/CalQLParser.cpp
@@ -524,6 +524,11 @@ struct CalQLParser::CalQLParserImpl {
 
             std::string target = util::read_word(is, ",;=<>()\n");
 
+            if (target.empty()) {
+                set_error("Expected attribute name in LET", is);
+                return;
+            }
+
             c = util::read_char(is);
 
             if (c != '=') {
-- 
2.43.0


From 64bc9ef0ceb1195d94fa40ca9ff9cfc4961a4f2e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:19:35 +0000
Subject: [PATCH 36/66] fix: LET truncate works for 64-bit integers and zero
 factors

---
 src/reader/Preprocessor.cpp | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/reader/Preprocessor.cpp b/src/reader/Preprocessor.cpp
index c8161d7..680d340 100644
--- a/src/reader/Preprocessor.cpp
+++ b/src/reader/Preprocessor.cpp
@@ -164,7 +164,7 @@ public:
     {
         Variant v_tgt = get_value(db, m_tgt_attr_name, m_tgt_attr, rec);
 
-        if (v_tgt.empty())
+        if (v_tgt.empty() || !(std::fabs(m_factor) > 0.0))
             return;
 
         cali_attr_type type = m_tgt_attr.type();
@@ -175,15 +175,29 @@ public:
         if (!m_res_attr)
             m_res_attr = db.create_attribute(m_res_attr_name, type, CALI_ATTR_SKIP_EVENTS | CALI_ATTR_ASVALUE);
 
-        double val = v_tgt.to_double();
-        double res = val - fmod(val, m_factor);
-
-        Variant v_res(res);
-
-        if (type == CALI_TYPE_INT)
-            v_res = cali_make_variant_from_int(static_cast<int>(res));
-        else if (type == CALI_TYPE_UINT)
-            v_res = cali_make_variant_from_uint(static_cast<uint64_t>(fabs(res)));
+        Variant v_res;
+
+        // use integer arithmetic where possible: a double can't represent all 64-bit integers
+        double factor = std::fabs(m_factor);
+        bool   is_int = factor < 9007199254740992.0 && factor == std::floor(factor);
+
+        if (is_int && type == CALI_TYPE_INT) {
+            int64_t val = v_tgt.to_int64();
+            v_res       = cali_make_variant_from_int64(val - val % static_cast<int64_t>(factor));
+        } else if (is_int && type == CALI_TYPE_UINT) {
+            uint64_t val = v_tgt.to_uint();
+            v_res        = cali_make_variant_from_uint(val - val % static_cast<uint64_t>(factor));
+        } else {
+            double val = v_tgt.to_double();
+            double res = val - fmod(val, m_factor);
+
+            if (type == CALI_TYPE_INT)
+                v_res = cali_make_variant_from_int64(static_cast<int64_t>(res));
+            else if (type == CALI_TYPE_UINT)
+                v_res = cali_make_variant_from_uint(static_cast<uint64_t>(fabs(res)));
+            else
+                v_res = Variant(res);
+        }
 
         rec.push_back(Entry(m_res_attr, Variant(v_res)));
     }
-- 
2.43.0


From d6c57d6ac860a5c9813faef951cf5c4fdcab0c94 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:19:47 +0000
Subject: [PATCH 37/66] fix: a scale argument in a query that is not a number
 is an error

---
 src/reader/CalQLParser.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/reader/CalQLParser.cpp b/src/reader/CalQLParser.cpp
index 54ce16f..6a3adec 100644
--- a/src/reader/CalQLParser.cpp
+++ b/src/reader/CalQLParser.cpp
@@ -53,6 +53,24 @@ bool is_in_arglist(const std::string& s, const QuerySpec::FunctionSignature& sig
     return false;
 }
 
+/// \brief Check if the "scale" arguments in \a args are numbers
+bool check_scale_args(const QuerySpec::FunctionSignature& sig, const std::vector<std::string>& args)
+{
+    for (int i = 0; i < sig.max_args && i < static_cast<int>(args.size()); ++i)
+        if (std::string("scale") == sig.args[i]) {
+            try {
+                size_t pos = 0;
+                std::stod(args[i], &pos);
+                if (pos != args[i].size())
+                    return false;
+            } catch (const std::exception&) {
+                return false;
+            }
+        }
+
+    return true;
+}
+
 bool extract_path_keyword(std::vector<std::string>& list)
 {
     bool ret = false;
@@ -198,6 +216,8 @@ struct CalQLParser::CalQLParserImpl {
             if (i >= 0) {
                 if (defs[i].min_args > argsize || defs[i].max_args < argsize) {
                     set_error(std::string("Invalid number of arguments for ") + defs[i].name, is);
+                } else if (!check_scale_args(defs[i], args)) {
+                    set_error(std::string("Invalid scale argument for ") + defs[i].name, is);
                 } else {
                     spec.aggregate.selection = QuerySpec::AggregationSelection::List;
                     spec.aggregate.list.emplace_back(defs[i], args);
@@ -300,6 +320,8 @@ struct CalQLParser::CalQLParserImpl {
 
                         if (defs[i].min_args > argsize || defs[i].max_args < argsize) {
                             set_error(std::string("Invalid number of arguments for ") + defs[i].name, is);
+                        } else if (!check_scale_args(defs[i], args)) {
+                            set_error(std::string("Invalid scale argument for ") + defs[i].name, is);
                         } else {
                             spec.aggregate.selection = QuerySpec::AggregationSelection::List;
 
@@ -554,6 +576,8 @@ struct CalQLParser::CalQLParserImpl {
 
             if (defs[i].min_args > argsize || defs[i].max_args < argsize)
                 set_error(std::string("Invalid number of arguments for operator ") + opname, is);
+            else if (!check_scale_args(defs[i], args))
+                set_error(std::string("Invalid scale argument for operator ") + opname, is);
             else {
                 auto it = std::find_if(
                     spec.preprocess_ops.begin(),
-- 
2.43.0


From 3d420221c10de9f68ea4fc57961177050434784d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:19:47 +0000
Subject: [PATCH 38/66] fix: less-than and greater-than filters in the --select
 option

---
 src/reader/RecordSelector.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/reader/RecordSelector.cpp b/src/reader/RecordSelector.cpp
index 7fd9c9a..3822c92 100644
--- a/src/reader/RecordSelector.cpp
+++ b/src/reader/RecordSelector.cpp
@@ -48,7 +48,8 @@ QuerySpec::Condition parse_clause(const std::string& str)
         struct ops_t {
             char                     c;
             QuerySpec::Condition::Op op;
-        } const ops[] = { // { '<', Op::Less     }, { '>', Op::Greater  },
+        } const ops[] = { { '<', QuerySpec::Condition::Op::LessThan },
+                          { '>', QuerySpec::Condition::Op::GreaterThan },
                           { '=', QuerySpec::Condition::Op::Equal },
                           { 0, QuerySpec::Condition::Op::Exist }
         };
@@ -65,8 +66,13 @@ QuerySpec::Condition parse_clause(const std::string& str)
             case QuerySpec::Condition::Op::Equal:
                 clause.op = QuerySpec::Condition::Op::NotEqual;
                 break;
+            case QuerySpec::Condition::Op::LessThan:
+                clause.op = QuerySpec::Condition::Op::GreaterOrEqual;
+                break;
+            case QuerySpec::Condition::Op::GreaterThan:
+                clause.op = QuerySpec::Condition::Op::LessOrEqual;
+                break;
             default:
-                // TODO: Handle remaining conditions
                 clause.op = QuerySpec::Condition::Op::None;
             }
         } else {
-- 
2.43.0


From 9754cd4a43e19fe41386a7a79337f5296e2366d3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:28:19 +0000
Subject: [PATCH 39/66] fix: aggregation keys do not depend on the order of
 unrelated attributes in the context tree

---
 src/reader/Aggregator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index 6b0ae8a..debb519 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -1086,7 +1086,7 @@ struct Aggregator::AggregatorImpl {
 
         // --- Canonicalize key by sorting by attribute ids
 
-        std::sort(key.begin(), key.end(), [](const Entry& a, const Entry& b) {
+        std::stable_sort(key.begin(), key.end(), [](const Entry& a, const Entry& b) {
             return a.attribute() < b.attribute();
         });
 
@@ -1094,6 +1094,11 @@ struct Aggregator::AggregatorImpl {
 
         if (!non_path_nodes.empty()) {
             std::reverse(non_path_nodes.begin(), non_path_nodes.end());
+            // the position of explicitly selected attributes in the tree is not part of the key
+            if (!m_select_all)
+                std::stable_sort(non_path_nodes.begin(), non_path_nodes.end(), [](const Node* a, const Node* b) {
+                    return a->attribute() < b->attribute();
+                });
             key.emplace_back(db.make_tree_entry(non_path_nodes.size(), non_path_nodes.data()));
         }
 
-- 
2.43.0


From 71f1c22986f6e6e7b83e33fa5f2f2fffebf230bf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:26:54 +0000
Subject: [PATCH 40/66] fix: partial aggregation results are not lost where the
 input attribute is unknown

---
 src/reader/Aggregator.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index debb519..26bc5ea 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -86,8 +86,12 @@ public:
 
     Attribute derived_attr(CaliperMetadataAccessInterface& db)
     {
-        if (!m_derived_attr && target_attr(db))
-            m_derived_attr = db.create_attribute(m_prefix+m_name, m_target_attr.type(), s_prop | m_prop);
+        if (!m_derived_attr) {
+            if (target_attr(db))
+                m_derived_attr = db.create_attribute(m_prefix+m_name, m_target_attr.type(), s_prop | m_prop);
+            else // there may be partial aggregation results from a dataset with the target attribute
+                m_derived_attr = db.get_attribute(m_prefix+m_name);
+        }
         return m_derived_attr;
     }
 };
@@ -96,8 +100,9 @@ inline int apply_to_matching_entries(CaliperMetadataAccessInterface& db, Aggrega
 {
     if (!attr.derived_attr(db))
         return 0;
-    cali_id_t tgt_attr_id = attr.target_attr(db).id();
+    Attribute target_attr = attr.target_attr(db);
     cali_id_t drv_attr_id = attr.derived_attr(db).id();
+    cali_id_t tgt_attr_id = target_attr ? target_attr.id() : drv_attr_id;
     int count = 0;
     for (const Entry& e : rec)
         if (e.node()->id() == tgt_attr_id || e.node()->id() == drv_attr_id) {
@@ -487,14 +492,14 @@ public:
     int aggregate(CaliperMetadataAccessInterface& db, const EntryList& list) override
     {
         Attribute tgt_attr = m_config->m_sum_attr.target_attr(db);
-        if (!tgt_attr)
-            return 0;
         Attribute sum_attr = m_config->m_sum_attr.derived_attr(db);
+        if (!sum_attr)
+            return 0;
         Attribute count_attr = m_config->m_count_attr.get(db);
         int count = 0;
 
         for (const Entry& e : list) {
-            if (e.attribute() == tgt_attr.id()) {
+            if (tgt_attr && e.attribute() == tgt_attr.id()) {
                 m_sum += e.value();
                 ++m_count;
                 ++count;
@@ -763,12 +768,13 @@ public:
 
         bool get_statistics_attributes(CaliperMetadataAccessInterface& db, StatisticsAttributes& a)
         {
-            if (!m_target_attr)
-                return false;
-            if (a.sum) {
+            if (m_stat_attrs.sum) {
                 a = m_stat_attrs;
                 return true;
             }
+            // without the target attribute there may still be partial aggregation results
+            if (!m_target_attr && !db.get_attribute("var.sum#" + m_target_attr_name))
+                return false;
 
             int prop = CALI_ATTR_SKIP_EVENTS | CALI_ATTR_ASVALUE;
 
@@ -803,7 +809,7 @@ public:
 
         int count = 0;
         for (const Entry& e : list) {
-            if (e.attribute() == target_attr.id()) {
+            if (target_attr && e.attribute() == target_attr.id()) {
                 double v = e.value().to_double();
                 m_sum += v;
                 m_sqsum += (v * v);
-- 
2.43.0


From 80dc5ec3df214f687bfc4fe6cf292e96426e5b1c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:31:34 +0000
Subject: [PATCH 41/66] fix: merging partial results of inclusive operators and
 of operators with shared attributes does not count values repeatedly

---
 src/reader/Aggregator.cpp | 115 ++++++++++++++++++++++++++++----------
 1 file changed, 85 insertions(+), 30 deletions(-)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index 26bc5ea..c768f60 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -112,6 +112,17 @@ inline int apply_to_matching_entries(CaliperMetadataAccessInterface& db, Aggrega
     return count;
 }
 
+// Append a partial aggregation result. Kernels can share result attributes, e.g. in
+// "ratio(a,b),ratio(a,c)": append those only once so they are not counted repeatedly
+// when the result is aggregated again.
+inline void append_unique(EntryList& rec, const Entry& entry)
+{
+    for (const Entry& e : rec)
+        if (e.is_immediate() && e.attribute() == entry.attribute())
+            return;
+    rec.push_back(entry);
+}
+
 class AggregateKernelConfig;
 
 class AggregateKernel
@@ -254,19 +265,30 @@ public:
 
     class Config : public AggregateKernelConfig
     {
-        AggregationAttributeManager m_attr_mgr;
+        AggregationAttributeManager m_sum_attr;
+        std::string m_incl_name;
+        Attribute m_incl_attr;
         bool m_is_inclusive;
 
     public:
 
-        AggregationAttributeManager& attr() { return m_attr_mgr; }
+        // Partial results keep the exclusive sum in a hidden attribute for inclusive sums
+        AggregationAttributeManager& sum_attr() { return m_sum_attr; }
+
+        Attribute incl_attr(CaliperMetadataAccessInterface& db)
+        {
+            if (!m_incl_attr)
+                m_incl_attr = db.create_attribute(m_incl_name, m_sum_attr.derived_attr(db).type(), CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE | CALI_ATTR_SKIP_EVENTS);
+            return m_incl_attr;
+        }
 
         bool is_inclusive() const override { return m_is_inclusive; }
         AggregateKernel* make_kernel() override { return new SumKernel(this); }
 
-        Config(const std::string& target_name, bool is_inclusive) :
-            m_attr_mgr { target_name, is_inclusive ? "inclusive#" : "sum#" },
-            m_is_inclusive { is_inclusive }
+        Config(const std::string& target_name, bool is_inclusive)
+            : m_sum_attr { target_name, is_inclusive ? "iscsum#" : "sum#", is_inclusive ? CALI_ATTR_HIDDEN : 0 }
+            , m_incl_name { "inclusive#" + target_name }
+            , m_is_inclusive { is_inclusive }
         { }
 
         static AggregateKernelConfig* create(const std::vector<std::string>& cfg)
@@ -284,18 +306,29 @@ public:
 
     int aggregate(CaliperMetadataAccessInterface& db, const EntryList& rec) override
     {
-        return apply_to_matching_entries(db, m_config->attr(), rec, [this](const Entry& e){ m_sum += e.value(); });
+        return apply_to_matching_entries(db, m_config->sum_attr(), rec, [this](const Entry& e){
+                m_sum += e.value();
+                m_isum += e.value();
+            });
+    }
+
+    void parent_aggregate(CaliperMetadataAccessInterface& db, const EntryList& rec) override
+    {
+        apply_to_matching_entries(db, m_config->sum_attr(), rec, [this](const Entry& e){ m_isum += e.value(); });
     }
 
     void append_result(CaliperMetadataAccessInterface& db, EntryList& rec) override
     {
         if (m_sum)
-            rec.push_back(Entry(m_config->attr().derived_attr(db), m_sum));
+            append_unique(rec, Entry(m_config->sum_attr().derived_attr(db), m_sum));
+        if (m_isum && m_config->is_inclusive())
+            rec.push_back(Entry(m_config->incl_attr(db), m_isum));
     }
 
 private:
 
     Variant m_sum;
+    Variant m_isum; // inclusive sum
     Config* m_config;
 };
 
@@ -343,20 +376,29 @@ public:
 
     int aggregate(CaliperMetadataAccessInterface& db, const EntryList& rec) override
     {
-        return apply_to_matching_entries(db, m_config->sum_attr(), rec, [this](const Entry& e){ m_sum += e.value(); });
+        return apply_to_matching_entries(db, m_config->sum_attr(), rec, [this](const Entry& e){
+                m_sum += e.value();
+                m_isum += e.value();
+            });
+    }
+
+    void parent_aggregate(CaliperMetadataAccessInterface& db, const EntryList& rec) override
+    {
+        apply_to_matching_entries(db, m_config->sum_attr(), rec, [this](const Entry& e){ m_isum += e.value(); });
     }
 
     void append_result(CaliperMetadataAccessInterface& db, EntryList& rec) override
     {
-        if (m_sum) {
-            rec.push_back(Entry(m_config->sum_attr().derived_attr(db), Variant(m_sum)));
-            rec.push_back(Entry(m_config->result_attr(db), Variant(m_config->get_scale() * m_sum.to_double())));
-        }
+        if (m_sum)
+            append_unique(rec, Entry(m_config->sum_attr().derived_attr(db), Variant(m_sum)));
+        if (m_isum)
+            rec.push_back(Entry(m_config->result_attr(db), Variant(m_config->get_scale() * m_isum.to_double())));
     }
 
 private:
 
     Variant m_sum;
+    Variant m_isum; // inclusive sum
     Config* m_config;
 };
 
@@ -519,8 +561,8 @@ public:
     {
         if (m_count > 0) {
             list.push_back(Entry(m_config->m_avg_attr.derived_attr(db), m_sum.div(m_count)));
-            list.push_back(Entry(m_config->m_sum_attr.derived_attr(db), m_sum));
-            list.push_back(Entry(m_config->m_count_attr.get(db), Variant(cali_make_variant_from_uint(m_count))));
+            append_unique(list, Entry(m_config->m_sum_attr.derived_attr(db), m_sum));
+            append_unique(list, Entry(m_config->m_count_attr.get(db), Variant(cali_make_variant_from_uint(m_count))));
         }
     }
 
@@ -585,28 +627,41 @@ public:
     int aggregate(CaliperMetadataAccessInterface& db, const EntryList& rec) override
     {
         int count = 0;
-        count += apply_to_matching_entries(db, m_config->m_tgt1, rec, [this](const Entry& e){ m_sum1 += e.value(); });
-        count += apply_to_matching_entries(db, m_config->m_tgt2, rec, [this](const Entry& e){ m_sum2 += e.value(); });
+        count += apply_to_matching_entries(db, m_config->m_tgt1, rec, [this](const Entry& e){
+                m_sum1 += e.value();
+                m_isum1 += e.value();
+            });
+        count += apply_to_matching_entries(db, m_config->m_tgt2, rec, [this](const Entry& e){
+                m_sum2 += e.value();
+                m_isum2 += e.value();
+            });
         return count;
     }
 
+    void parent_aggregate(CaliperMetadataAccessInterface& db, const EntryList& rec) override
+    {
+        apply_to_matching_entries(db, m_config->m_tgt1, rec, [this](const Entry& e){ m_isum1 += e.value(); });
+        apply_to_matching_entries(db, m_config->m_tgt2, rec, [this](const Entry& e){ m_isum2 += e.value(); });
+    }
+
     void append_result(CaliperMetadataAccessInterface& db, EntryList& rec) override
     {
         if (m_sum1)
-            rec.push_back(Entry(m_config->m_tgt1.derived_attr(db), m_sum1));
-        if (m_sum2) {
-            rec.push_back(Entry(m_config->m_tgt2.derived_attr(db), m_sum2));
-            if (m_sum1)
-                rec.push_back(
-                    Entry(m_config->m_ratio_attr.get(db), Variant(m_config->get_scale() * m_sum1.to_double() / m_sum2.to_double()))
-                );
-        }
+            append_unique(rec, Entry(m_config->m_tgt1.derived_attr(db), m_sum1));
+        if (m_sum2)
+            append_unique(rec, Entry(m_config->m_tgt2.derived_attr(db), m_sum2));
+        if (m_isum1 && m_isum2)
+            rec.push_back(
+                Entry(m_config->m_ratio_attr.get(db), Variant(m_config->get_scale() * m_isum1.to_double() / m_isum2.to_double()))
+            );
     }
 
 private:
 
     Variant m_sum1;
     Variant m_sum2;
+    Variant m_isum1; // inclusive sums
+    Variant m_isum2;
     Config* m_config;
 };
 
@@ -679,10 +734,10 @@ public:
     void append_result(CaliperMetadataAccessInterface& db, EntryList& list) override
     {
         double total = m_config->get_total();
-        if (m_isum && total > 0.0) {
-            list.push_back(Entry(m_config->sum_attr().derived_attr(db), Variant(m_sum)));
+        if (m_sum)
+            append_unique(list, Entry(m_config->sum_attr().derived_attr(db), m_sum));
+        if (m_isum && total > 0.0)
             list.push_back(Entry(m_config->result_attr(db), Variant(100.0 * m_isum.to_double() / total)));
-        }
     }
 
 private:
@@ -840,9 +895,9 @@ public:
 
             double avg = m_sum / m_count;
             list.push_back(Entry(stat_attr.variance, Variant(m_sqsum / m_count - (avg * avg))));
-            list.push_back(Entry(stat_attr.sum, Variant(m_sum)));
-            list.push_back(Entry(stat_attr.sqsum, Variant(m_sqsum)));
-            list.push_back(Entry(stat_attr.count, Variant(cali_make_variant_from_uint(m_count))));
+            append_unique(list, Entry(stat_attr.sum, Variant(m_sum)));
+            append_unique(list, Entry(stat_attr.sqsum, Variant(m_sqsum)));
+            append_unique(list, Entry(stat_attr.count, Variant(cali_make_variant_from_uint(m_count))));
         }
     }
 
-- 
2.43.0


From 5c6b69309f385a3cf301c4b79e23ef11d1a51de3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:32:01 +0000
Subject: [PATCH 42/66] fix: results created only by inclusive operators are
 not counted as records when merged

---
 src/reader/Aggregator.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index c768f60..08a8f10 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -158,11 +158,17 @@ public:
     class Config : public AggregateKernelConfig
     {
         CustomAttributeManager m_count_attr;
+        CustomAttributeManager m_zero_attr { "count.zero", CALI_TYPE_UINT, CALI_ATTR_HIDDEN };
 
     public:
 
         Attribute attr(CaliperMetadataAccessInterface& db) { return m_count_attr.get(db); }
 
+        // Marks results which do not represent any input records themselves (e.g., if they
+        // were created by an inclusive metric for a child node), so that they are not
+        // counted when they are aggregated again
+        Attribute zero_attr(CaliperMetadataAccessInterface& db) { return m_zero_attr.get(db); }
+
         AggregateKernel* make_kernel() override { return new CountKernel(this); }
 
         Config() : m_count_attr { "count", CALI_TYPE_UINT } {}
@@ -176,11 +182,13 @@ public:
     {
         Attribute count_attr = m_config->attr(db);
         cali_id_t count_attr_id = count_attr.id();
+        cali_id_t zero_attr_id = m_config->zero_attr(db).id();
         for (const Entry& e : list)
             if (e.attribute() == count_attr_id) {
                 m_count += e.value().to_uint();
                 return 1;
-            }
+            } else if (e.attribute() == zero_attr_id)
+                return 1;
 
         ++m_count;
         return 1;
@@ -191,6 +199,8 @@ public:
         uint64_t count = m_count.load();
         if (count > 0)
             list.push_back(Entry(m_config->attr(db), Variant(cali_make_variant_from_uint(count))));
+        else
+            append_unique(list, Entry(m_config->zero_attr(db), Variant(cali_make_variant_from_uint(0))));
     }
 
 private:
@@ -206,6 +216,7 @@ public:
     class Config : public AggregateKernelConfig
     {
         CustomAttributeManager m_count_attr;
+        CustomAttributeManager m_zero_attr { "count.zero", CALI_TYPE_UINT, CALI_ATTR_HIDDEN };
         CustomAttributeManager m_result_attr { "scount", CALI_TYPE_DOUBLE };
 
         double m_scale;
@@ -231,11 +242,13 @@ public:
     int aggregate(CaliperMetadataAccessInterface& db, const EntryList& list) override
     {
         Attribute count_attr = m_config->m_count_attr.get(db);
+        Attribute zero_attr = m_config->m_zero_attr.get(db);
         for (const Entry& e : list)
             if (e.attribute() == count_attr.id()) {
                 m_count += e.value().to_uint();
                 return 1;
-            }
+            } else if (e.attribute() == zero_attr.id())
+                return 1;
 
         ++m_count;
         return 1;
@@ -246,7 +259,8 @@ public:
         if (m_count > 0) {
             list.push_back(Entry(m_config->m_count_attr.get(db), Variant(m_count)));
             list.push_back(Entry(m_config->m_result_attr.get(db), Variant(m_config->get_scale() * m_count)));
-        }
+        } else
+            append_unique(list, Entry(m_config->m_zero_attr.get(db), Variant(cali_make_variant_from_uint(0))));
     }
 
 private:
-- 
2.43.0


From 66f6d45b746e890063b2f4bae985cbabae2536b2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:50:34 +0000
Subject: [PATCH 43/66] fix: tree output sort order and summaries where records
 have no value for the sort attribute

---
 src/reader/SnapshotTree.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/reader/SnapshotTree.cpp b/src/reader/SnapshotTree.cpp
index d9cb9a6..8621a6f 100644
--- a/src/reader/SnapshotTree.cpp
+++ b/src/reader/SnapshotTree.cpp
@@ -33,8 +33,11 @@ Variant SnapshotTreeNode::min_val(const Attribute& key)
             val = val ? std::min(val, (*it).second) : (*it).second;
     }
 
-    for (SnapshotTreeNode* node = first_child(); node; node = node->next_sibling())
-        val = val ? std::min(val, node->min_val(key)) : node->min_val(key);
+    for (SnapshotTreeNode* node = first_child(); node; node = node->next_sibling()) {
+        Variant node_val = node->min_val(key);
+        if (node_val)
+            val = val ? std::min(val, node_val) : node_val;
+    }
 
     m_v_min[key] = val;
     return val;
@@ -59,8 +62,11 @@ Variant SnapshotTreeNode::max_val(const Attribute& key)
             val = val ? std::max(val, (*it).second) : (*it).second;
     }
 
-    for (SnapshotTreeNode* node = first_child(); node; node = node->next_sibling())
-        val = val ? std::max(val, node->max_val(key)) : node->max_val(key);
+    for (SnapshotTreeNode* node = first_child(); node; node = node->next_sibling()) {
+        Variant node_val = node->max_val(key);
+        if (node_val)
+            val = val ? std::max(val, node_val) : node_val;
+    }
 
     m_v_max[key] = val;
     return val;
@@ -76,10 +82,11 @@ void SnapshotTreeNode::sort(const Attribute& key, bool ascending)
         auto l_it = std::find_if(lhs.begin(), lhs.end(), find_key);
         auto r_it = std::find_if(rhs.begin(), rhs.end(), find_key);
 
-        if (r_it == rhs.end())
-            return true;
+        // records without the key go last
         if (l_it == lhs.end())
             return false;
+        if (r_it == rhs.end())
+            return true;
 
         return ascending ? l_it->second < r_it->second : l_it->second > r_it->second;
     });
-- 
2.43.0


From 239d75f239514d60553c7b4f1f12b27a56f5cb8f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:50:34 +0000
Subject: [PATCH 44/66] fix: table output sorts by the original values, not by
 their displayed digits

---
 src/reader/TableFormatter.cpp | 45 ++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/reader/TableFormatter.cpp b/src/reader/TableFormatter.cpp
index 9fb7bee..8ab3c75 100644
--- a/src/reader/TableFormatter.cpp
+++ b/src/reader/TableFormatter.cpp
@@ -48,8 +48,18 @@ struct TableFormatter::TableImpl {
         {}
     };
 
-    std::vector<Column>                   m_cols;
-    std::vector<std::vector<std::string>> m_rows;
+    struct Row {
+        std::vector<std::string> cells;
+        std::vector<Variant>     values; // original values for sort columns
+
+        Variant sort_value(std::size_t c, cali_attr_type type) const
+        {
+            return values[c].empty() ? Variant::from_string(type, cells[c].c_str()) : values[c];
+        }
+    };
+
+    std::vector<Column> m_cols;
+    std::vector<Row>    m_rows;
 
     std::mutex m_col_lock;
     std::mutex m_row_lock;
@@ -192,8 +202,8 @@ struct TableFormatter::TableImpl {
 
     void add(CaliperMetadataAccessInterface& db, const EntryList& list)
     {
-        std::vector<Column>      cols = update_columns(db, list);
-        std::vector<std::string> row(cols.size());
+        std::vector<Column> cols = update_columns(db, list);
+        Row row { std::vector<std::string>(cols.size()), std::vector<Variant>(cols.size()) };
 
         bool active           = false;
         bool update_max_width = false;
@@ -218,13 +228,16 @@ struct TableFormatter::TableImpl {
                     }
                 } else if (e.attribute() == cols[c].attr.id()) {
                     val = e.value().to_string();
+                    // keep numbers for sorting: the string does not have their full precision
+                    if (cols[c].sort_order != QuerySpec::SortSpec::Order::None && !e.value().has_unmanaged_data())
+                        row.values[c] = e.value();
                     break;
                 }
             }
 
             if (!val.empty()) {
                 active = true;
-                row[c] = val;
+                row.cells[c] = val;
 
                 size_t width = val.length();
 
@@ -262,22 +275,22 @@ struct TableFormatter::TableImpl {
                 std::stable_sort(
                     m_rows.begin(),
                     m_rows.end(),
-                    [c, this](const std::vector<std::string>& lhs, const std::vector<std::string>& rhs) {
-                        if (c >= lhs.size() || c >= rhs.size())
-                            return lhs.size() < rhs.size();
+                    [c, this](const Row& lhs, const Row& rhs) {
+                        if (c >= lhs.cells.size() || c >= rhs.cells.size())
+                            return lhs.cells.size() < rhs.cells.size();
                         cali_attr_type type = this->m_cols[c].attr.type();
-                        return Variant::from_string(type, lhs[c].c_str()) < Variant::from_string(type, rhs[c].c_str());
+                        return lhs.sort_value(c, type) < rhs.sort_value(c, type);
                     }
                 );
             else if (m_cols[c].sort_order == QuerySpec::SortSpec::Order::Descending)
                 std::stable_sort(
                     m_rows.begin(),
                     m_rows.end(),
-                    [c, this](const std::vector<std::string>& lhs, const std::vector<std::string>& rhs) {
-                        if (c >= lhs.size() || c >= rhs.size())
-                            return lhs.size() > rhs.size();
+                    [c, this](const Row& lhs, const Row& rhs) {
+                        if (c >= lhs.cells.size() || c >= rhs.cells.size())
+                            return lhs.cells.size() > rhs.cells.size();
                         cali_attr_type type = this->m_cols[c].attr.type();
-                        return Variant::from_string(type, lhs[c].c_str()) > Variant::from_string(type, rhs[c].c_str());
+                        return lhs.sort_value(c, type) > rhs.sort_value(c, type);
                     }
                 );
 
@@ -293,13 +306,13 @@ struct TableFormatter::TableImpl {
 
         // print rows
 
-        for (auto row : m_rows) {
-            for (std::vector<Column>::size_type c = 0; c < row.size(); ++c) {
+        for (const Row& row : m_rows) {
+            for (std::vector<Column>::size_type c = 0; c < row.cells.size(); ++c) {
                 if (!m_cols[c].print)
                     continue;
 
                 int            width       = column_width(m_cols[c].width);
-                std::string    str         = util::clamp_string(row[c], width);
+                std::string    str         = util::clamp_string(row.cells[c], width);
                 cali_attr_type t           = m_cols[c].attr.type();
                 bool           align_right = (t == CALI_TYPE_INT || t == CALI_TYPE_UINT || t == CALI_TYPE_DOUBLE);
 
-- 
2.43.0


From 20998dee0cc16a008c7cfb08f54fa08ea14e7c7b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:50:34 +0000
Subject: [PATCH 45/66] fix: control characters in strings are written as
 escapes in JSON output

---
 src/common/util/format_util.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/util/format_util.h b/src/common/util/format_util.h
index 8f479d6..666f8b6 100644
--- a/src/common/util/format_util.h
+++ b/src/common/util/format_util.h
@@ -38,9 +38,13 @@ inline std::ostream& write_json_esc_string(std::ostream& os, const char* str, st
         if (c == '\n') { // handle newline in string
             os.put('\\');
             os.put('n');
+            continue;
         }
-        if (static_cast<unsigned char>(c) < 0x20) // skip control characters
+        if (static_cast<unsigned char>(c) < 0x20) { // write control characters as \u00XX
+            const char* hex = "0123456789abcdef";
+            os.write("\\u00", 4).put(hex[(c >> 4) & 0xF]).put(hex[c & 0xF]);
             continue;
+        }
         if (c == '\\' || c == '\"')
             os.put('\\');
 
-- 
2.43.0


From bb2e24c2e12eca435e7cbef42292e55c2a9edc7f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:50:34 +0000
Subject: [PATCH 46/66] fix: JSON output writes valid values for all types and
 keeps floating-point precision

---
 src/reader/JsonFormatter.cpp      | 19 ++++++++------
 src/reader/JsonSplitFormatter.cpp | 19 +++++++-------
 src/reader/JsonUtil.h             | 43 +++++++++++++++++++++++++++++++
 3 files changed, 64 insertions(+), 17 deletions(-)
 create mode 100644 src/reader/JsonUtil.h

diff --git a/src/reader/JsonFormatter.cpp b/src/reader/JsonFormatter.cpp
index 2320728..9a6d87b 100644
--- a/src/reader/JsonFormatter.cpp
+++ b/src/reader/JsonFormatter.cpp
@@ -5,6 +5,8 @@
 
 #include "JsonFormatter.h"
 
+#include "JsonUtil.h"
+
 #include "caliper/reader/QuerySpec.h"
 
 #include "caliper/common/Attribute.h"
@@ -130,9 +132,9 @@ struct JsonFormatter::JsonFormatterImpl {
                     auto it = quote_kvs.find(key);
 
                     if (it == quote_kvs.end())
-                        quote_kvs.emplace(std::make_pair(std::move(key), node->data().to_string()));
+                        quote_kvs.emplace(std::make_pair(std::move(key), to_json_text(node->data())));
                     else
-                        it->second = node->data().to_string().append("/").append(it->second);
+                        it->second = to_json_text(node->data()).append("/").append(it->second);
                 }
             } else if (e.is_immediate()) {
                 Attribute   attr = db.get_attribute(e.attribute());
@@ -141,12 +143,13 @@ struct JsonFormatter::JsonFormatterImpl {
                 if (key.empty())
                     continue;
 
-                cali_attr_type type = attr.type();
+                const Variant val      = e.value();
+                const bool    no_quote = is_json_number(val) || val.type() == CALI_TYPE_BOOL;
 
-                if (m_opt_quote_all || type == CALI_TYPE_STRING || type == CALI_TYPE_USR)
-                    quote_kvs[std::move(key)] = e.value().to_string();
+                if (m_opt_quote_all || !no_quote)
+                    quote_kvs[std::move(key)] = to_json_text(val);
                 else
-                    noquote_kvs[std::move(key)] = e.value().to_string();
+                    noquote_kvs[std::move(key)] = to_json_text(val);
             }
         } // for (Entry& ... )
 
@@ -234,7 +237,7 @@ struct JsonFormatter::JsonFormatterImpl {
         for (const Entry& e : globals)
             if (e.is_reference())
                 for (const Node* node = e.node(); node && node->id() != CALI_INV_ID; node = node->parent()) {
-                    std::string s = node->data().to_string();
+                    std::string s = to_json_text(node->data());
 
                     if (global_vals[node->attribute()].size() > 0)
                         s.append("/").append(global_vals[node->attribute()]);
@@ -242,7 +245,7 @@ struct JsonFormatter::JsonFormatterImpl {
                     global_vals[node->attribute()] = s;
                 }
             else
-                global_vals[e.attribute()] = e.value().to_string();
+                global_vals[e.attribute()] = to_json_text(e.value());
 
         int count = 0;
         for (auto& p : global_vals) {
diff --git a/src/reader/JsonSplitFormatter.cpp b/src/reader/JsonSplitFormatter.cpp
index ddca4c1..99ddafb 100644
--- a/src/reader/JsonSplitFormatter.cpp
+++ b/src/reader/JsonSplitFormatter.cpp
@@ -5,6 +5,8 @@
 
 #include "JsonSplitFormatter.h"
 
+#include "JsonUtil.h"
+
 #include "caliper/reader/Aggregator.h"
 #include "caliper/reader/QuerySpec.h"
 
@@ -102,7 +104,7 @@ public:
 
         for (const Entry& e : vec) {
             HierarchyNode* parent = node;
-            std::string    label  = e.value().to_string();
+            std::string    label  = to_json_text(e.value());
 
             for (node = parent->first_child(); node && (label != node->label()); node = node->next_sibling())
                 ;
@@ -275,15 +277,14 @@ struct JsonSplitFormatter::JsonSplitFormatterImpl {
 
     void write_immediate_entry(std::ostream& os, const EntryList& list, const Attribute& attr)
     {
-        cali_attr_type type  = attr.type();
-        bool           quote = !(type == CALI_TYPE_INT || type == CALI_TYPE_UINT || type == CALI_TYPE_DOUBLE);
-
         for (const Entry& e : list)
             if (e.attribute() == attr.id()) {
-                if (quote)
-                    util::write_json_esc_string(os << "\"", e.value().to_string()) << "\"";
+                const Variant val = e.value();
+
+                if (is_json_number(val))
+                    os << to_json_text(val);
                 else
-                    os << e.value().to_string();
+                    util::write_json_esc_string(os << "\"", to_json_text(val)) << "\"";
 
                 return;
             }
@@ -306,7 +307,7 @@ struct JsonSplitFormatter::JsonSplitFormatterImpl {
         for (const Entry& e : globals)
             if (e.is_reference())
                 for (const Node* node = e.node(); node && node->id() != CALI_INV_ID; node = node->parent()) {
-                    std::string s = node->data().to_string();
+                    std::string s = to_json_text(node->data());
 
                     if (global_vals[node->attribute()].size() > 0)
                         s.append("/").append(global_vals[node->attribute()]);
@@ -314,7 +315,7 @@ struct JsonSplitFormatter::JsonSplitFormatterImpl {
                     global_vals[node->attribute()] = s;
                 }
             else
-                global_vals[e.attribute()] = e.value().to_string();
+                global_vals[e.attribute()] = to_json_text(e.value());
 
         for (auto& p : global_vals) {
             util::write_json_esc_string(os << ",\n  \"", db.get_attribute(p.first).name()) << "\": ";
diff --git a/src/reader/JsonUtil.h b/src/reader/JsonUtil.h
new file mode 100644
index 0000000..7c1bf5e
--- /dev/null
+++ b/src/reader/JsonUtil.h
@@ -0,0 +1,43 @@
+// Copyright (c) 2015-2022, Lawrence Livermore National Security, LLC.
+// See top-level LICENSE file for details.
+
+/// \file JsonUtil.h
+/// Helper functions for the JSON formatters
+
+#pragma once
+
+#include "caliper/common/Variant.h"
+
+#include <cmath>
+#include <sstream>
+#include <string>
+
+namespace cali
+{
+
+/// \brief Tell if \a val can be written as a JSON number
+inline bool is_json_number(const Variant& val)
+{
+    switch (val.type()) {
+    case CALI_TYPE_INT:
+    case CALI_TYPE_UINT:
+        return true;
+    case CALI_TYPE_DOUBLE:
+        return std::isfinite(val.to_double());
+    default:
+        return false;
+    }
+}
+
+/// \brief Return the text for \a val in JSON output. Preserves floating-point values.
+inline std::string to_json_text(const Variant& val)
+{
+    if (val.type() != CALI_TYPE_DOUBLE)
+        return val.to_string();
+
+    std::ostringstream os;
+    Variant(val).write_cali(os);
+    return os.str();
+}
+
+} // namespace cali
-- 
2.43.0


From bebe326605b703aff122b1007b01caa578196e75 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:50:34 +0000
Subject: [PATCH 47/66] fix: selecting the path in json, expand, and table
 output; valid attribute section in json object output

---
 src/reader/Expand.cpp         | 20 ++++++++++++++------
 src/reader/JsonFormatter.cpp  | 31 ++++++++++++++++++++-----------
 src/reader/TableFormatter.cpp | 17 +++++++++++++----
 3 files changed, 47 insertions(+), 21 deletions(-)

diff --git a/src/reader/Expand.cpp b/src/reader/Expand.cpp
index 885898e..b6f6f36 100644
--- a/src/reader/Expand.cpp
+++ b/src/reader/Expand.cpp
@@ -25,6 +25,8 @@ using namespace cali;
 
 struct Expand::ExpandImpl {
     std::set<std::string> m_selected;
+    bool                  m_select_all  = true;
+    bool                  m_select_path = false;
 
     std::map<std::string, std::string> m_aliases;
 
@@ -45,13 +47,20 @@ struct Expand::ExpandImpl {
             // doesn't make much sense
             break;
         case QuerySpec::AttributeSelection::List:
-            m_selected = std::set<std::string>(spec.select.list.begin(), spec.select.list.end());
+            m_selected    = std::set<std::string>(spec.select.list.begin(), spec.select.list.end());
+            m_select_all  = false;
+            m_select_path = spec.select.use_path;
             break;
         }
 
         m_aliases = spec.aliases;
     }
 
+    bool is_selected(const Attribute& attr) const
+    {
+        return m_select_all || (m_select_path && attr.is_nested()) || m_selected.count(attr.name()) > 0;
+    }
+
     void print(CaliperMetadataAccessInterface& db, const EntryList& list)
     {
         int nentry = 0;
@@ -63,9 +72,7 @@ struct Expand::ExpandImpl {
                 std::vector<const Node*> nodes;
 
                 for (const Node* node = e.node(); node && node->attribute() != CALI_INV_ID; node = node->parent()) {
-                    std::string name = db.get_attribute(node->attribute()).name();
-
-                    if ((!m_selected.empty() && m_selected.count(name) == 0))
+                    if (!is_selected(db.get_attribute(node->attribute())))
                         continue;
 
                     nodes.push_back(node);
@@ -98,9 +105,10 @@ struct Expand::ExpandImpl {
                     os << (*it)->data().to_string();
                 }
             } else if (e.is_immediate()) {
-                std::string name = db.get_attribute(e.attribute()).name();
+                Attribute   attr = db.get_attribute(e.attribute());
+                std::string name = attr.name();
 
-                if ((!m_selected.empty() && m_selected.count(name) == 0))
+                if (!is_selected(attr))
                     continue;
 
                 {
diff --git a/src/reader/JsonFormatter.cpp b/src/reader/JsonFormatter.cpp
index 9a6d87b..3f632fb 100644
--- a/src/reader/JsonFormatter.cpp
+++ b/src/reader/JsonFormatter.cpp
@@ -29,6 +29,8 @@ using namespace cali;
 
 struct JsonFormatter::JsonFormatterImpl {
     std::set<std::string> m_selected;
+    bool                  m_select_all  = true;
+    bool                  m_select_path = false;
 
     OutputStream m_os;
     std::mutex m_os_lock;
@@ -74,20 +76,25 @@ struct JsonFormatter::JsonFormatterImpl {
             // doesn't make much sense
             break;
         case QuerySpec::AttributeSelection::List:
-            m_selected = std::set<std::string>(spec.select.list.begin(), spec.select.list.end());
+            m_selected    = std::set<std::string>(spec.select.list.begin(), spec.select.list.end());
+            m_select_all  = false;
+            m_select_path = spec.select.use_path;
             break;
         }
 
         m_aliases = spec.aliases;
     }
 
+    bool is_selected(const Attribute& attr) const
+    {
+        return (m_select_path && attr.is_nested()) || m_selected.count(attr.name()) > 0;
+    }
+
     inline std::string get_key(const Attribute& attr)
     {
         std::string name = attr.name();
 
-        bool selected = m_selected.count(name) > 0;
-
-        if (!selected && (!m_selected.empty() || attr.is_hidden() || attr.is_global()))
+        if (m_select_all ? (attr.is_hidden() || attr.is_global()) : !is_selected(attr))
             return "";
 
         if (attr.is_nested() && !m_opt_sep_nested)
@@ -187,13 +194,14 @@ struct JsonFormatter::JsonFormatterImpl {
 
     std::ostream& write_attributes(CaliperMetadataAccessInterface& db, std::ostream& os)
     {
-        std::vector<Attribute> attrs;
+        std::vector<Attribute> attrs = db.get_all_attributes();
 
-        if (m_selected.empty())
-            attrs = db.get_all_attributes();
-        else
-            for (const std::string& str : m_selected)
-                attrs.push_back(db.get_attribute(str));
+        // remove attributes that are not selected
+        if (!m_select_all)
+            attrs.erase(
+                std::remove_if(attrs.begin(), attrs.end(), [this](const Attribute& a) { return !is_selected(a); }),
+                attrs.end()
+            );
 
         // remove nested and hidden attributes
         if (!m_opt_sep_nested)
@@ -211,7 +219,8 @@ struct JsonFormatter::JsonFormatterImpl {
 
         int count = 0;
         for (const Attribute& a : attrs) {
-            os << (count++ > 0 ? ",\n" : "\n") << (m_opt_pretty ? "\t" : "") << '\"' << a.name() << "\": {";
+            os << (count++ > 0 ? ",\n" : "\n") << (m_opt_pretty ? "\t" : "") << '\"';
+            util::write_json_esc_string(os, a.name()) << "\": {";
 
             // encode some properties
             os << "\"is_global\": " << (a.is_global() ? "true" : "false")
diff --git a/src/reader/TableFormatter.cpp b/src/reader/TableFormatter.cpp
index 8ab3c75..e93aae9 100644
--- a/src/reader/TableFormatter.cpp
+++ b/src/reader/TableFormatter.cpp
@@ -33,6 +33,7 @@ struct TableFormatter::TableImpl {
         Attribute attr;
 
         bool print; // used for hidden sort columns
+        bool path = false; // show the region hierarchy of all nested attributes
 
         QuerySpec::SortSpec::Order sort_order;
 
@@ -127,6 +128,13 @@ struct TableFormatter::TableImpl {
             m_auto_column = true;
             break;
         case QuerySpec::AttributeSelection::List:
+            if (spec.select.use_path) {
+                auto        it    = m_aliases.find("path");
+                std::string alias = it == m_aliases.end() ? "path" : it->second;
+
+                m_cols.emplace_back("path", alias, alias.size(), Attribute(), true);
+                m_cols.back().path = true;
+            }
             for (const std::string& s : spec.select.list) {
                 std::string alias = s;
 
@@ -194,7 +202,7 @@ struct TableFormatter::TableImpl {
         // Check if we can look up attribute object from name
 
         for (Column& col : m_cols)
-            if (!col.attr)
+            if (!col.attr && !col.path)
                 col.attr = db.get_attribute(col.name);
 
         return m_cols;
@@ -209,7 +217,7 @@ struct TableFormatter::TableImpl {
         bool update_max_width = false;
 
         for (std::vector<Column>::size_type c = 0; c < cols.size(); ++c) {
-            if (!cols[c].attr)
+            if (!cols[c].attr && !cols[c].path)
                 continue;
 
             std::string val;
@@ -219,14 +227,15 @@ struct TableFormatter::TableImpl {
                     std::string str;
 
                     for (const Node* node = e.node(); node; node = node->parent())
-                        if (node->attribute() == cols[c].attr.id())
+                        if (cols[c].path ? db.get_attribute(node->attribute()).is_nested()
+                                         : node->attribute() == cols[c].attr.id())
                             str = node->data().to_string().append(str.empty() ? "" : "/").append(str);
 
                     if (!str.empty()) {
                         val = str;
                         break;
                     }
-                } else if (e.attribute() == cols[c].attr.id()) {
+                } else if (!cols[c].path && e.attribute() == cols[c].attr.id()) {
                     val = e.value().to_string();
                     // keep numbers for sorting: the string does not have their full precision
                     if (cols[c].sort_order != QuerySpec::SortSpec::Order::None && !e.value().has_unmanaged_data())
-- 
2.43.0


From bb8966b779a3840dd54c88c411620b74e6ee62cc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:50:34 +0000
Subject: [PATCH 48/66] fix: json-split hierarchy columns contain the nodes of
 their own column only

---
 src/reader/JsonSplitFormatter.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/reader/JsonSplitFormatter.cpp b/src/reader/JsonSplitFormatter.cpp
index 99ddafb..fda3c7e 100644
--- a/src/reader/JsonSplitFormatter.cpp
+++ b/src/reader/JsonSplitFormatter.cpp
@@ -51,6 +51,7 @@ class Hierarchy
         {}
 
         const std::string& label() const { return m_label; }
+        const std::string& column() const { return m_column; }
 
         std::ostream& write_json(std::ostream& os) const
         {
@@ -106,8 +107,9 @@ public:
             HierarchyNode* parent = node;
             std::string    label  = to_json_text(e.value());
 
-            for (node = parent->first_child(); node && (label != node->label()); node = node->next_sibling())
-                ;
+            node = parent->first_child();
+            while (node && (label != node->label() || column != node->column()))
+                node = node->next_sibling();
 
             if (!node) {
                 std::lock_guard<std::mutex> g(m_nodes_lock);
@@ -259,7 +261,7 @@ struct JsonSplitFormatter::JsonSplitFormatterImpl {
         std::vector<Entry> path;
 
         for (const Entry& e : list)
-            for (Node* node = e.node(); node && node->id() != CALI_INV_ID; node = node->parent())
+            for (Node* node = e.is_reference() ? e.node() : nullptr; node && node->id() != CALI_INV_ID; node = node->parent())
                 for (const Attribute& a : path_attrs)
                     if (node->attribute() == a.id()) {
                         path.push_back(Entry(node));
-- 
2.43.0


From 0f25b60784ffc8ea84d9fdd608aa1ce9a9ca461d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:56:58 +0000
Subject: [PATCH 49/66] fix: write_report_for_query reports the channel's own
 metadata, with units, and honors the clear flag

---
 src/caliper/cali.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/caliper/cali.cpp b/src/caliper/cali.cpp
index 29001d8..cd1b8b4 100644
--- a/src/caliper/cali.cpp
+++ b/src/caliper/cali.cpp
@@ -18,6 +18,7 @@
 #include "caliper/common/OutputStream.h"
 #include "caliper/common/Variant.h"
 
+#include "caliper/reader/CaliperMetadataDB.h"
 #include "caliper/reader/CalQLParser.h"
 #include "caliper/reader/QueryProcessor.h"
 
@@ -822,13 +823,25 @@ void write_report_for_query(cali_id_t chn_id, const char* query, int flush_opts,
 
     stream.set_stream(&os);
 
-    QueryProcessor queryP(spec, stream);
+    CaliperMetadataDB db;
+    QueryProcessor    queryP(spec, stream);
 
-    c.flush(channel.body(), SnapshotView(), [&queryP](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) {
-        queryP.process_record(db, rec);
-    });
+    db.add_attribute_aliases(spec.aliases);
+    db.add_attribute_units(spec.units);
+
+    c.flush(
+        channel.body(),
+        SnapshotView(),
+        [&queryP, &db](CaliperMetadataAccessInterface& in_db, const std::vector<Entry>& rec) {
+            queryP.process_record(db, db.merge_snapshot(in_db, rec));
+        }
+    );
 
-    queryP.flush(c);
+    db.import_globals(c, c.get_globals(channel.body()));
+    queryP.flush(db);
+
+    if (flush_opts & CALI_FLUSH_CLEAR_BUFFERS)
+        c.clear(&channel);
 }
 
 } // namespace cali
-- 
2.43.0


From e50b4e80fe27b2a0cdf58783a8b7ffa70554c3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:08:01 +0000
Subject: [PATCH 50/66] fix: exchange complete records and string values in
 cross-process aggregation

Records of more than 512 bytes were cut off, and strings were sent as
addresses that mean nothing in the receiving process.
---
 src/caliper/aggregate_over_mpi.cpp | 120 ++++++++++++++++++++++-------
 1 file changed, 94 insertions(+), 26 deletions(-)

diff --git a/src/caliper/aggregate_over_mpi.cpp b/src/caliper/aggregate_over_mpi.cpp
index 5d8bbec..8db1028 100644
--- a/src/caliper/aggregate_over_mpi.cpp
+++ b/src/caliper/aggregate_over_mpi.cpp
@@ -8,11 +8,13 @@
 
 #include "caliper/common/Node.h"
 
-#include "../common/CompressedSnapshotRecord.h"
 #include "../common/NodeBuffer.h"
-#include "../common/SnapshotBuffer.h"
+
+#include "../common/util/vlenc.h"
 
 #include <set>
+#include <string>
+#include <vector>
 
 using namespace cali;
 
@@ -43,23 +45,102 @@ void recursive_append_path(
     buf.append(node);
 }
 
+void append_u64(uint64_t val, std::vector<unsigned char>& buf)
+{
+    unsigned char tmp[10];
+    buf.insert(buf.end(), tmp, tmp + vlenc_u64(val, tmp));
+}
+
+// Append a complete record to the buffer: number of node and immediate entries,
+// node ids, and attribute id and value for each immediate entry.
+// Strings are copied because addresses have no meaning in the receiving process.
+void append_record(const EntryList& list, std::vector<unsigned char>& buf)
+{
+    uint64_t n_nodes = 0;
+    uint64_t n_imm   = 0;
+
+    for (const Entry& e : list)
+        if (e.is_reference())
+            ++n_nodes;
+        else if (e.is_immediate())
+            ++n_imm;
+
+    append_u64(n_nodes, buf);
+    append_u64(n_imm, buf);
+
+    for (const Entry& e : list)
+        if (e.is_reference())
+            append_u64(e.node()->id(), buf);
+
+    for (const Entry& e : list)
+        if (e.is_immediate()) {
+            Variant val(e.value());
+            bool    is_string = val.type() == CALI_TYPE_STRING;
+
+            append_u64(e.attribute(), buf);
+            append_u64(is_string ? 1 : 0, buf);
+
+            if (is_string) {
+                const unsigned char* data = static_cast<const unsigned char*>(val.data());
+                append_u64(val.size(), buf);
+                buf.insert(buf.end(), data, data + val.size());
+            } else {
+                unsigned char tmp[32];
+                buf.insert(buf.end(), tmp, tmp + val.pack(tmp));
+            }
+        }
+}
+
+EntryList merge_record(const unsigned char* buf, size_t* inc, CaliperMetadataDB& db, const IdMap& idmap)
+{
+    EntryList list;
+    size_t    pos = 0;
+
+    uint64_t n_nodes = vldec_u64(buf + pos, &pos);
+    uint64_t n_imm   = vldec_u64(buf + pos, &pos);
+
+    list.reserve(n_nodes + n_imm);
+
+    for (uint64_t i = 0; i < n_nodes; ++i)
+        list.push_back(db.merge_entry(vldec_u64(buf + pos, &pos), idmap));
+
+    for (uint64_t i = 0; i < n_imm; ++i) {
+        cali_id_t attr_id = vldec_u64(buf + pos, &pos);
+
+        if (vldec_u64(buf + pos, &pos) == 1) {
+            size_t size = vldec_u64(buf + pos, &pos);
+            list.push_back(db.merge_entry(attr_id, std::string(reinterpret_cast<const char*>(buf + pos), size), idmap));
+            pos += size;
+        } else {
+            Variant   val   = Variant::unpack(buf + pos, &pos, nullptr);
+            EntryList entry = db.merge_snapshot(0, nullptr, 1, &attr_id, &val, idmap);
+            list.insert(list.end(), entry.begin(), entry.end());
+        }
+    }
+
+    *inc += pos;
+    return list;
+}
+
 void pack_and_send(int dest, CaliperMetadataAccessInterface& db, Aggregator& aggregator, MPI_Comm comm)
 {
-    NodeBuffer     nodebuf;
-    SnapshotBuffer snapbuf;
+    NodeBuffer                 nodebuf;
+    std::vector<unsigned char> recbuf;
+    unsigned                   reccount = 0;
 
     std::set<cali_id_t> written_nodes;
 
     aggregator.flush(
         db,
-        [&nodebuf, &snapbuf, &written_nodes](CaliperMetadataAccessInterface& db, const EntryList& list) {
+        [&nodebuf, &recbuf, &reccount, &written_nodes](CaliperMetadataAccessInterface& db, const EntryList& list) {
             for (const Entry& e : list)
                 if (e.node())
                     recursive_append_path(db, e.node(), nodebuf, written_nodes);
                 else if (e.is_immediate())
                     recursive_append_path(db, db.node(e.attribute()), nodebuf, written_nodes);
 
-            snapbuf.append(CompressedSnapshotRecord(list.size(), list.data()));
+            append_record(list, recbuf);
+            ++reccount;
         }
     );
 
@@ -72,10 +153,8 @@ void pack_and_send(int dest, CaliperMetadataAccessInterface& db, Aggregator& agg
     }
 
     {
-        unsigned snapcount = snapbuf.count();
-
-        MPI_Send(&snapcount, 1, MPI_UNSIGNED, dest, 3, comm);
-        MPI_Send(const_cast<unsigned char*>(snapbuf.data()), snapbuf.size(), MPI_BYTE, dest, 4, comm);
+        MPI_Send(&reccount, 1, MPI_UNSIGNED, dest, 3, comm);
+        MPI_Send(recbuf.data(), recbuf.size(), MPI_BYTE, dest, 4, comm);
     }
 }
 
@@ -120,27 +199,16 @@ size_t receive_and_merge_snapshots(
     MPI_Probe(source, 4, comm, &status);
     MPI_Get_count(&status, MPI_BYTE, &size);
 
-    SnapshotBuffer snapbuf;
+    std::vector<unsigned char> recbuf(size);
 
-    MPI_Recv(snapbuf.import(size, count), size, MPI_BYTE, source, 4, comm, MPI_STATUS_IGNORE);
+    MPI_Recv(recbuf.data(), size, MPI_BYTE, source, 4, comm, MPI_STATUS_IGNORE);
 
     size_t pos = 0;
 
-    for (size_t i = 0; i < snapbuf.count(); ++i) {
-        CompressedSnapshotRecordView view(snapbuf.data() + pos, &pos);
-
-        // currently 127 entries is the max for compressed snapshots
-        cali_id_t node_ids[128];
-        cali_id_t attr_ids[128];
-        Variant   values[128];
-
-        view.unpack_nodes(128, node_ids);
-        view.unpack_immediate(128, attr_ids, values);
-
-        snap_fn(db, db.merge_snapshot(view.num_nodes(), node_ids, view.num_immediates(), attr_ids, values, idmap));
-    }
+    for (unsigned i = 0; i < count; ++i)
+        snap_fn(db, merge_record(recbuf.data() + pos, &pos, db, idmap));
 
-    return snapbuf.size();
+    return recbuf.size();
 }
 
 size_t receive_and_merge(int source, CaliperMetadataDB& db, SnapshotProcessFn snap_fn, MPI_Comm comm)
-- 
2.43.0


From 3a6348dfb26e496909ac00670dbf943b7e7eaa29 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:14:39 +0000
Subject: [PATCH 51/66] fix: copy string values when merging a snapshot record
 into another metadata database

The merged record kept pointing to strings of the source database.
---
 src/reader/CaliperMetadataDB.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/reader/CaliperMetadataDB.cpp b/src/reader/CaliperMetadataDB.cpp
index 7869386..315497c 100644
--- a/src/reader/CaliperMetadataDB.cpp
+++ b/src/reader/CaliperMetadataDB.cpp
@@ -278,8 +278,15 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
 
             if (e.is_reference())
                 list.push_back(Entry(node));
-            else if (e.is_immediate())
-                list.push_back(Entry(Attribute::make_attribute(node), e.value()));
+            else if (e.is_immediate()) {
+                Variant v_data = e.value();
+
+                // make a copy of strings so that the record does not depend on the source database
+                if (v_data.type() == CALI_TYPE_STRING)
+                    v_data = make_string_variant(static_cast<const char*>(v_data.data()), v_data.size());
+
+                list.push_back(Entry(Attribute::make_attribute(node), v_data));
+            }
         }
 
         return list;
-- 
2.43.0


From 148b2ffdb8477a41a165924b75bed81c34162ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:15:19 +0000
Subject: [PATCH 52/66] fix: let all processes participate in the timeseries
 aggregation of all loops

Processes that did not execute a loop skipped its collective operations,
so that the spot controller with the timeseries option got stuck.
---
 src/caliper/controllers/SpotController.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/caliper/controllers/SpotController.cpp b/src/caliper/controllers/SpotController.cpp
index 4174a89..196c095 100644
--- a/src/caliper/controllers/SpotController.cpp
+++ b/src/caliper/controllers/SpotController.cpp
@@ -360,10 +360,14 @@ class SpotController : public cali::internal::CustomOutputController
             infovec.push_back(get_loop_info(in_db, rec));
         });
 
-        if (!infovec.empty()) {
+        //   The root process has the combined list of loops. Every process must
+        // participate for each of them, even if it did not execute the loop itself.
+        int num_loops = comm.bcast_int(static_cast<int>(infovec.size()));
+        infovec.resize(num_loops, LoopInfo { "", 0, 0 });
+
+        if (num_loops > 0) {
             for (const LoopInfo& loopinfo : infovec)
-                if (loopinfo.iterations > 0)
-                    process_timeseries(tsc.get(), c, writer, loopinfo, comm);
+                process_timeseries(tsc.get(), c, writer, loopinfo, comm);
         } else {
             Log(1).stream() << "[spot controller]: No instrumented loops found" << std::endl;
         }
-- 
2.43.0


From 282cb63654992e14f408212836cf61804673b435 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:15:19 +0000
Subject: [PATCH 53/66] fix: apply WHERE conditions after LET preprocessing in
 mpi-caliquery

---
 src/tools/mpi-caliquery/mpi-caliquery.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools/mpi-caliquery/mpi-caliquery.cpp b/src/tools/mpi-caliquery/mpi-caliquery.cpp
index e9bbc38..63848b1 100644
--- a/src/tools/mpi-caliquery/mpi-caliquery.cpp
+++ b/src/tools/mpi-caliquery/mpi-caliquery.cpp
@@ -131,10 +131,11 @@ void process_my_input(int rank, const Args& args, const QuerySpec& spec, Caliper
     };
     SnapshotProcessFn snap_proc = aggregate;
 
-    if (!spec.preprocess_ops.empty())
-        snap_proc = SnapshotFilterStep(Preprocessor(spec), snap_proc);
+    // The processing chain is built back to front: records are filtered after preprocessing
     if (spec.filter.selection == QuerySpec::FilterSelection::List)
         snap_proc = SnapshotFilterStep(RecordSelector(spec), snap_proc);
+    if (!spec.preprocess_ops.empty())
+        snap_proc = SnapshotFilterStep(Preprocessor(spec), snap_proc);
 
     CaliReader reader;
     reader.read(filename, db, node_proc, snap_proc);
-- 
2.43.0


From 26df6be903be553f730c3c9137d9431c5147bfdf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:30:46 +0000
Subject: [PATCH 54/66] fix: first_child() synchronizes with the thread that
 appended the node

---
 include/caliper/common/lockfree-tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/caliper/common/lockfree-tree.hpp b/include/caliper/common/lockfree-tree.hpp
index 74e1892..beac1a3 100644
--- a/include/caliper/common/lockfree-tree.hpp
+++ b/include/caliper/common/lockfree-tree.hpp
@@ -80,7 +80,7 @@ public:
 
     T* parent() const { return node(m_me).parent; }
 
-    T* first_child() const { return node(m_me).head.load(std::memory_order_relaxed); }
+    T* first_child() const { return node(m_me).head.load(std::memory_order_acquire); }
 
     T* next_sibling() const { return node(m_me).next; }
 
-- 
2.43.0


From ce732fe453a12d2a8ac2365a153122682f6637dd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:30:46 +0000
Subject: [PATCH 55/66] fix: finding a node by its id does not race with node
 creation in other threads

---
 src/caliper/MetadataTree.cpp |  6 +++---
 src/caliper/MetadataTree.h   | 11 +++++++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/caliper/MetadataTree.cpp b/src/caliper/MetadataTree.cpp
index 082c6ba..507c8e4 100644
--- a/src/caliper/MetadataTree.cpp
+++ b/src/caliper/MetadataTree.cpp
@@ -182,7 +182,7 @@ Node* MetadataTree::create_path(const Attribute& attr, size_t n, const Variant*
             ptr += size + (align - (size + 1) % align);
         }
 
-        size_t index = m_nodeblock->index++;
+        size_t index = m_nodeblock->next_index();
 
         node = new (m_nodeblock->chunk + index)
             Node((m_nodeblock - g->node_blocks) * g->nodes_per_block + index, attr.id(), Variant(type, dptr, size));
@@ -210,7 +210,7 @@ Node* MetadataTree::create_child(const Attribute& attr, const Variant& value, No
     if (value.has_unmanaged_data())
         ptr = m_mempool.allocate(value.size() + 1 /* ensure 0-padding so we can safely hand out string ptrs */);
 
-    size_t      index = m_nodeblock->index++;
+    size_t      index = m_nodeblock->next_index();
     GlobalData* g     = mG.load();
 
     Node* node = new (m_nodeblock->chunk + index)
@@ -269,7 +269,7 @@ Node* MetadataTree::get_or_copy_node(const Node* from, Node* parent)
         if (!have_free_nodeblock(1))
             return nullptr;
 
-        size_t index = m_nodeblock->index++;
+        size_t index = m_nodeblock->next_index();
 
         node = new (m_nodeblock->chunk + index)
             Node((m_nodeblock - g->node_blocks) * g->nodes_per_block + index, from->attribute(), from->data());
diff --git a/src/caliper/MetadataTree.h b/src/caliper/MetadataTree.h
index e847fa2..cbc49e0 100644
--- a/src/caliper/MetadataTree.h
+++ b/src/caliper/MetadataTree.h
@@ -23,8 +23,15 @@ namespace internal
 class MetadataTree
 {
     struct NodeBlock {
-        Node*  chunk;
-        size_t index;
+        Node*               chunk { nullptr };
+        std::atomic<size_t> index { 0 }; // modified only by the owner thread, but read by others
+
+        size_t next_index()
+        {
+            size_t i = index.load(std::memory_order_relaxed);
+            index.store(i + 1, std::memory_order_relaxed);
+            return i;
+        }
     };
 
     struct GlobalData {
-- 
2.43.0


From 6a16cfc9e473cfc887b7f8e50b43f0ee105c60c7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:30:46 +0000
Subject: [PATCH 56/66] fix: creating attributes does not race with aggregation
 in other threads

---
 src/services/aggregate/Aggregate.cpp | 61 +++++++++++++++++++++++-----
 1 file changed, 51 insertions(+), 10 deletions(-)

diff --git a/src/services/aggregate/Aggregate.cpp b/src/services/aggregate/Aggregate.cpp
index 7cdad74..c637f8a 100644
--- a/src/services/aggregate/Aggregate.cpp
+++ b/src/services/aggregate/Aggregate.cpp
@@ -16,7 +16,9 @@
 #include "caliper/common/Variant.h"
 
 #include <algorithm>
+#include <atomic>
 #include <cstring>
+#include <memory>
 #include <mutex>
 #include <sstream>
 
@@ -69,8 +71,22 @@ class Aggregate
     ThreadDB*      m_tdb_list = nullptr;
     util::spinlock m_tdb_lock;
 
-    AttributeInfo            m_attr_info;
-    std::vector<std::string> m_key_attribute_names;
+    //   Attributes can be created in any thread at any time, including while other
+    // threads process snapshots. Therefore, updates publish a modified copy of the
+    // attribute info. Others may still use previous versions, so we keep those.
+
+    std::atomic<const AttributeInfo*>           m_attr_info { nullptr };
+    std::vector<std::unique_ptr<AttributeInfo>> m_attr_info_versions;
+    std::vector<std::string>                    m_key_attribute_names;
+    std::mutex                                  m_attr_info_lock; // protects the above
+
+    // m_attr_info_lock must be held
+    AttributeInfo* copy_attr_info()
+    {
+        const AttributeInfo* info = m_attr_info.load();
+        m_attr_info_versions.emplace_back(info ? new AttributeInfo(*info) : new AttributeInfo);
+        return m_attr_info_versions.back().get();
+    }
 
     Attribute m_tdb_attr;
 
@@ -130,11 +146,21 @@ class Aggregate
         if (!(attr.properties() & CALI_ATTR_AGGREGATABLE))
             return;
 
-        if (std::find(m_attr_info.aggr_attrs.begin(), m_attr_info.aggr_attrs.end(), attr) != m_attr_info.aggr_attrs.end())
+        ResultAttributes result_attrs = make_result_attributes(c, attr);
+
+        std::lock_guard<std::mutex> g(m_attr_info_lock);
+
+        const AttributeInfo* info = m_attr_info.load();
+
+        if (std::find(info->aggr_attrs.begin(), info->aggr_attrs.end(), attr) != info->aggr_attrs.end())
             return;
 
-        m_attr_info.aggr_attrs.push_back(attr);
-        m_attr_info.result_attrs.push_back(make_result_attributes(c, attr));
+        AttributeInfo* new_info = copy_attr_info();
+
+        new_info->aggr_attrs.push_back(attr);
+        new_info->result_attrs.push_back(result_attrs);
+
+        m_attr_info.store(new_info);
     }
 
     void init_aggregation_attributes(Caliper* c)
@@ -146,8 +172,17 @@ class Aggregate
 
         const int prop = CALI_ATTR_ASVALUE | CALI_ATTR_SCOPE_THREAD | CALI_ATTR_SKIP_EVENTS;
 
-        m_attr_info.count_attr = c->create_attribute("count", CALI_TYPE_UINT, prop);
-        m_attr_info.slot_attr  = c->create_attribute("aggregate.slot", CALI_TYPE_UINT, prop);
+        Attribute count_attr = c->create_attribute("count", CALI_TYPE_UINT, prop);
+        Attribute slot_attr  = c->create_attribute("aggregate.slot", CALI_TYPE_UINT, prop);
+
+        std::lock_guard<std::mutex> g(m_attr_info_lock);
+
+        AttributeInfo* new_info = copy_attr_info();
+
+        new_info->count_attr = count_attr;
+        new_info->slot_attr  = slot_attr;
+
+        m_attr_info.store(new_info);
     }
 
     void flush_cb(Caliper* c, SnapshotFlushFn proc_fn)
@@ -163,7 +198,7 @@ class Aggregate
 
         for (; tdb; tdb = tdb->next) {
             tdb->stopped.store(true);
-            num_written += tdb->db.flush(m_attr_info, c, proc_fn);
+            num_written += tdb->db.flush(*m_attr_info.load(), c, proc_fn);
             tdb->stopped.store(false);
         }
 
@@ -234,18 +269,22 @@ class Aggregate
         ThreadDB* tdb = acquire_tdb(c, !c->is_signal());
 
         if (tdb && !tdb->stopped.load())
-            tdb->db.process_snapshot(c, rec, m_attr_info);
+            tdb->db.process_snapshot(c, rec, *m_attr_info.load());
         else
             ++m_num_dropped_snapshots;
     }
 
     void check_key_attribute(const Attribute& attr)
     {
+        std::lock_guard<std::mutex> g(m_attr_info_lock);
+
         auto it = std::find(m_key_attribute_names.begin(), m_key_attribute_names.end(), attr.name());
 
         if (it != m_key_attribute_names.end()) {
             if (attr.store_as_value()) {
-                m_attr_info.imm_key_attrs.push_back(attr);
+                AttributeInfo* new_info = copy_attr_info();
+                new_info->imm_key_attrs.push_back(attr);
+                m_attr_info.store(new_info);
             } else {
                 Log(1).stream() << m_channel_name
                     << ": aggregate: Reference attributes are no longer supported in CALI_AGGREGATE_KEY, ignoring "
@@ -296,6 +335,8 @@ class Aggregate
 
     Aggregate(Caliper* c, Channel* chn) : m_channel_name { chn->name() }, m_num_dropped_snapshots(0)
     {
+        m_attr_info.store(copy_attr_info());
+
         auto cfg = services::init_config_from_spec(chn->config(), s_spec);        
         m_key_attribute_names = cfg.get("key").to_stringlist(",");
         
-- 
2.43.0


From cea4ed2f4210ebec9b8465c824369536a9bf975a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:53:03 +0000
Subject: [PATCH 57/66] fix: process and channel regions ended by two threads
 at the same time are all closed

---
 src/caliper/Caliper.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index ee0092b..47f3465 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -644,6 +644,17 @@ inline void handle_end(
     }
 }
 
+//   Other threads can modify a blackboard shared between threads while we run
+// the end event callbacks, so get the current entry again. Blackboard must be locked.
+inline void handle_shared_end(const Attribute& attr, int prop, cali_id_t key, Blackboard& blackboard, MetadataTree& tree)
+{
+    Entry merged_entry = blackboard.get(key);
+    Entry entry        = merged_entry.get(attr);
+
+    if (!entry.empty())
+        handle_end(attr, prop, { merged_entry, entry }, key, blackboard, tree);
+}
+
 inline void handle_set(
     const Attribute& attr,
     const Variant&   value,
@@ -1023,7 +1034,7 @@ void Caliper::end(const Attribute& attr)
         handle_end(attr, prop, current, key, sT->thread_blackboard, sT->tree);
     else {
         std::lock_guard<std::mutex> gbb(sG->process_blackboard_lock);
-        handle_end(attr, prop, current, key, sG->process_blackboard, sT->tree);
+        handle_shared_end(attr, prop, key, sG->process_blackboard, sT->tree);
     }
 }
 
@@ -1068,7 +1079,7 @@ void Caliper::end_with_value_check(const Attribute& attr, const Variant& data)
         handle_end(attr, prop, current, key, sT->thread_blackboard, sT->tree);
     else {
         std::lock_guard<std::mutex> gbb(sG->process_blackboard_lock);
-        handle_end(attr, prop, current, key, sG->process_blackboard, sT->tree);
+        handle_shared_end(attr, prop, key, sG->process_blackboard, sT->tree);
     }
 }
 
@@ -1154,7 +1165,7 @@ void Caliper::end(ChannelBody* chB, const Attribute& attr)
 
     {
         std::lock_guard<std::mutex> gbb(chB->channel_blackboard_lock);
-        handle_end(attr, prop, current, key, chB->channel_blackboard, sT->tree);
+        handle_shared_end(attr, prop, key, chB->channel_blackboard, sT->tree);
     }
 }
 
-- 
2.43.0


From caaca83ef8565860fde37a8a47eb9744d81dafcb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:53:03 +0000
Subject: [PATCH 58/66] fix: counters shared between threads in the aggregate,
 trace, timer, and statistics services

---
 src/services/aggregate/Aggregate.cpp   | 2 +-
 src/services/statistics/Statistics.cpp | 6 +++++-
 src/services/timer/Timer.cpp           | 3 ++-
 src/services/trace/Trace.cpp           | 4 ++--
 4 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/services/aggregate/Aggregate.cpp b/src/services/aggregate/Aggregate.cpp
index c637f8a..64ff5d5 100644
--- a/src/services/aggregate/Aggregate.cpp
+++ b/src/services/aggregate/Aggregate.cpp
@@ -90,7 +90,7 @@ class Aggregate
 
     Attribute m_tdb_attr;
 
-    size_t m_num_dropped_snapshots;
+    std::atomic<size_t> m_num_dropped_snapshots;
 
     inline ThreadDB* acquire_tdb(Caliper* c, bool can_alloc)
     {
diff --git a/src/services/statistics/Statistics.cpp b/src/services/statistics/Statistics.cpp
index 28d9324..f071809 100644
--- a/src/services/statistics/Statistics.cpp
+++ b/src/services/statistics/Statistics.cpp
@@ -113,10 +113,14 @@ public:
 
         if (chn->id() == 0) {
             chn->events().create_thread_evt.connect([instance](Caliper* c, Channel* chn) {
+                std::lock_guard<std::mutex> g(instance->lock);
                 ++instance->num_threads;
                 instance->max_threads = std::max(instance->num_threads, instance->max_threads);
             });
-            chn->events().release_thread_evt.connect([instance](Caliper* c, Channel* chn) { --instance->num_threads; });
+            chn->events().release_thread_evt.connect([instance](Caliper* c, Channel* chn) {
+                std::lock_guard<std::mutex> g(instance->lock);
+                --instance->num_threads;
+            });
         }
 
         chn->events().finish_evt.connect([instance](Caliper* c, Channel* chn) {
diff --git a/src/services/timer/Timer.cpp b/src/services/timer/Timer.cpp
index 5ec1422..8020e7c 100644
--- a/src/services/timer/Timer.cpp
+++ b/src/services/timer/Timer.cpp
@@ -12,6 +12,7 @@
 #include "caliper/common/Log.h"
 
 #include <cassert>
+#include <atomic>
 #include <chrono>
 #include <map>
 #include <mutex>
@@ -59,7 +60,7 @@ class TimerService
     Attribute begin_evt_attr;
     Attribute end_evt_attr;
 
-    int n_stack_errors { 0 };
+    std::atomic<int> n_stack_errors { 0 };
 
     TimerInfo* acquire_timerinfo(Caliper* c)
     {
diff --git a/src/services/trace/Trace.cpp b/src/services/trace/Trace.cpp
index d5237a5..930e6df 100644
--- a/src/services/trace/Trace.cpp
+++ b/src/services/trace/Trace.cpp
@@ -55,7 +55,7 @@ class Trace
     BufferPolicy policy     = BufferPolicy::Grow;
     size_t       buffersize = 2 * 1024 * 1024;
 
-    size_t dropped_snapshots = 0;
+    std::atomic<size_t> dropped_snapshots { 0 };
 
     unsigned num_acquired = 0;
     unsigned num_released = 0;
@@ -275,7 +275,7 @@ class Trace
                             << num_retired << " retired, " << num_released << " released." << std::endl;
     }
 
-    Trace(Caliper* c, Channel* channel) : dropped_snapshots(0), m_channel { *channel }
+    Trace(Caliper* c, Channel* channel) : m_channel { *channel }
     {
         ConfigSet cfg = services::init_config_from_spec(channel->config(), s_spec);
 
-- 
2.43.0


From cb395f76944704b66ece380f2b33ae193ab7a830 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:53:03 +0000
Subject: [PATCH 59/66] fix: attributes created by another thread are usable
 only when all channels know them

---
 src/caliper/Caliper.cpp | 62 ++++++++++++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 16 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 47f3465..7788872 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -22,6 +22,7 @@
 
 #include <signal.h>
 
+#include <algorithm>
 #include <atomic>
 #include <cassert>
 #include <chrono>
@@ -307,6 +308,12 @@ struct Caliper::GlobalData {
     mutable std::mutex               attribute_lock;
     std::map<std::string, Attribute> attribute_map;
 
+    //   Held while an attribute is created and the channels process it. Other threads
+    // must not use the attribute until then. Recursive because the create_attr_evt
+    // callbacks can create attributes, too.
+    mutable std::recursive_mutex attribute_creation_lock;
+    std::vector<cali_id_t>       attributes_in_creation; // protected by attribute_lock
+
     std::map<std::string, int> attribute_prop_presets;
     int                        attribute_default_scope;
 
@@ -695,13 +702,13 @@ Attribute Caliper::create_attribute(
 
     // Check if an attribute with this name already exists
     {
-        std::lock_guard<std::mutex> ga(sG->attribute_lock);
-
-        auto it = sG->attribute_map.find(name);
-        if (it != sG->attribute_map.end())
-            return it->second;
+        Attribute attr = get_attribute(name);
+        if (attr)
+            return attr;
     }
 
+    std::lock_guard<std::recursive_mutex> gc(sG->attribute_creation_lock);
+
     Node* node = nullptr;
 
     // Get type node
@@ -739,6 +746,8 @@ Attribute Caliper::create_attribute(
     node = sT->tree.get_child(prop_attr, Variant(prop), node);
     node = sT->tree.get_child(name_attr, Variant(CALI_TYPE_STRING, name.data(), name.size()), node);
 
+    Attribute attr = Attribute::make_attribute(node);
+
     {
         // Check again if attribute already exists; might have been created by
         // another thread in the meantime.
@@ -747,29 +756,50 @@ Attribute Caliper::create_attribute(
         std::lock_guard<std::mutex> ga(sG->attribute_lock);
 
         auto it = sG->attribute_map.lower_bound(name);
-        if (it == sG->attribute_map.end() || it->first != name)
-            sG->attribute_map.insert(it, std::make_pair(name, Attribute::make_attribute(node)));
-        else
+        if (it != sG->attribute_map.end() && it->first == name)
             return it->second;
-    }
 
-    // Create attribute object
-
-    Attribute attr = Attribute::make_attribute(node);
+        sG->attribute_map.insert(it, std::make_pair(name, attr));
+        sG->attributes_in_creation.push_back(attr.id());
+    }
 
     for (auto& channel : sG->all_channels)
         channel.mP->events.create_attr_evt(this, attr);
 
+    {
+        std::lock_guard<std::mutex> ga(sG->attribute_lock);
+
+        auto& vec = sG->attributes_in_creation;
+        vec.erase(std::find(vec.begin(), vec.end(), attr.id()));
+    }
+
     return attr;
 }
 
 Attribute Caliper::get_attribute(const std::string& name) const
 {
-    std::lock_guard<::siglock>  gs(sT->lock);
-    std::lock_guard<std::mutex> ga(sG->attribute_lock);
+    std::lock_guard<::siglock> gs(sT->lock);
+
+    Attribute attr;
+
+    {
+        std::lock_guard<std::mutex> ga(sG->attribute_lock);
 
-    auto it = sG->attribute_map.find(name);
-    return it != sG->attribute_map.end() ? it->second : Attribute();
+        auto it = sG->attribute_map.find(name);
+        if (it == sG->attribute_map.end())
+            return Attribute();
+
+        attr = it->second;
+
+        auto& vec = sG->attributes_in_creation;
+        if (std::find(vec.begin(), vec.end(), attr.id()) == vec.end())
+            return attr;
+    }
+
+    // Wait until the thread that creates the attribute is done with it
+    std::lock_guard<std::recursive_mutex> gc(sG->attribute_creation_lock);
+
+    return attr;
 }
 
 Attribute Caliper::get_attribute(cali_id_t id) const
-- 
2.43.0


From 6db945ba6dbc5348ddb52ba618f9a9b0dd56f818 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:53:03 +0000
Subject: [PATCH 60/66] fix: alloc service can handle address attributes
 created while other threads take snapshots

---
 src/services/alloc/AllocService.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/services/alloc/AllocService.cpp b/src/services/alloc/AllocService.cpp
index 107cf64..3b9b328 100644
--- a/src/services/alloc/AllocService.cpp
+++ b/src/services/alloc/AllocService.cpp
@@ -129,7 +129,11 @@ class AllocService
     };
 
     std::atomic<unsigned long> g_alloc_uid { 0 };
-    std::vector<alloc_attrs>   g_memoryaddress_attrs;
+
+    // Can be extended while other threads read it
+    alloc_attrs      g_memoryaddress_attrs[MAX_ADDRESS_ATTRIBUTES];
+    std::atomic<int> g_num_memoryaddress_attrs { 0 };
+    std::mutex       g_memoryaddress_attrs_lock;
 
     cali::Node g_alloc_root_node { CALI_INV_ID, CALI_INV_ID, Variant() };
 
@@ -198,7 +202,7 @@ class AllocService
 
         std::fill_n(info.addr_label_nodes, MAX_ADDRESS_ATTRIBUTES, nullptr);
 
-        for (int i = 0; i < std::min<int>(g_memoryaddress_attrs.size(), MAX_ADDRESS_ATTRIBUTES); ++i) {
+        for (int i = 0; i < g_num_memoryaddress_attrs.load(); ++i) {
             info.addr_label_nodes[i] =
                 c->make_tree_entry(g_memoryaddress_attrs[i].alloc_label_attr, v_label, root_node);
         }
@@ -280,7 +284,7 @@ class AllocService
 
     void resolve_addresses(Caliper* c, const SnapshotView trigger_info, SnapshotBuilder& snapshot)
     {
-        for (int i = 0; i < std::min<int>(g_memoryaddress_attrs.size(), MAX_ADDRESS_ATTRIBUTES); ++i) {
+        for (int i = 0; i < g_num_memoryaddress_attrs.load(); ++i) {
             Entry e = trigger_info.get(g_memoryaddress_attrs[i].memoryaddress_attr);
 
             if (e.empty())
@@ -332,8 +336,10 @@ class AllocService
     void snapshot_cb(Caliper* c, SnapshotView info, SnapshotBuilder& snapshot)
     {
         // Record currently active amount of allocated memory
-        if (g_record_active_mem)
+        if (g_record_active_mem) {
+            std::lock_guard<std::mutex> g(g_hwm_lock);
             snapshot.append(active_mem_attr, Variant(cali_make_variant_from_uint(g_active_mem)));
+        }
 
         if (g_resolve_addresses && !info.empty())
             resolve_addresses(c, info, snapshot);
@@ -361,16 +367,21 @@ class AllocService
                                          CALI_ATTR_SCOPE_THREAD | CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS
                                      ) };
 
-        if (g_memoryaddress_attrs.size() >= MAX_ADDRESS_ATTRIBUTES)
+        std::lock_guard<std::mutex> g(g_memoryaddress_attrs_lock);
+
+        int num = g_num_memoryaddress_attrs.load();
+
+        if (num >= MAX_ADDRESS_ATTRIBUTES)
             Log(1).stream() << "alloc: Can't perform lookup for more than " << MAX_ADDRESS_ATTRIBUTES
                             << " attributes. Skipping " << attr.name() << std::endl;
-        else
-            g_memoryaddress_attrs.push_back(attrs);
+        else {
+            g_memoryaddress_attrs[num] = attrs;
+            g_num_memoryaddress_attrs.store(num + 1);
+        }
     }
 
     void create_attr_cb(Caliper* c, const Attribute& attr)
     {
-        // Note: this isn't threadsafe!
         if (attr.get(class_memoryaddress_attr).to_bool() == true)
             make_address_attributes(c, attr);
     }
-- 
2.43.0


From 1a5bbfe071d0aac3159a6aff43885e715def0b4f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:34:02 +0000
Subject: [PATCH 61/66] fix: ignore API calls after finalization instead of
 dereferencing a null pointer

---
 src/caliper/AsyncEvent.cpp |   8 +++
 src/caliper/Caliper.cpp    | 122 +++++++++++++++++++++++++++++++++++--
 2 files changed, 126 insertions(+), 4 deletions(-)

diff --git a/src/caliper/AsyncEvent.cpp b/src/caliper/AsyncEvent.cpp
index aea6cbd..21188ec 100644
--- a/src/caliper/AsyncEvent.cpp
+++ b/src/caliper/AsyncEvent.cpp
@@ -62,6 +62,10 @@ void TimedAsyncEvent::end()
     uint64_t nsec = std::chrono::duration_cast<std::chrono::nanoseconds>(clock::now() - start_time_).count();
 
     Caliper c;
+
+    if (!c)
+        return;
+
     Attribute duration_attr = ::get_event_duration_attr(c);
     const Entry data[2] = {
         { end_tree_node_ }, { duration_attr, cali_make_variant_from_uint(nsec) }
@@ -73,6 +77,10 @@ void TimedAsyncEvent::end()
 TimedAsyncEvent TimedAsyncEvent::begin(const char* message)
 {
     Caliper c;
+
+    if (!c)
+        return TimedAsyncEvent(nullptr);
+
     Attribute begin_attr = ::get_async_event_begin_attr(c);
     Attribute end_attr = ::get_async_event_end_attr(c);
 
diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 7788872..200ed3f 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -696,6 +696,9 @@ Attribute Caliper::create_attribute(
     const Variant*     meta_val
 )
 {
+    if (!sT)
+        return Attribute();
+
     assert(sG != 0);
 
     std::lock_guard<::siglock> g(sT->lock);
@@ -778,6 +781,9 @@ Attribute Caliper::create_attribute(
 
 Attribute Caliper::get_attribute(const std::string& name) const
 {
+    if (!sT)
+        return Attribute();
+
     std::lock_guard<::siglock> gs(sT->lock);
 
     Attribute attr;
@@ -804,12 +810,18 @@ Attribute Caliper::get_attribute(const std::string& name) const
 
 Attribute Caliper::get_attribute(cali_id_t id) const
 {
+    if (!sT)
+        return Attribute();
+
     // no signal lock necessary
     return Attribute::make_attribute(sT->tree.node(id));
 }
 
 std::vector<Attribute> Caliper::get_all_attributes() const
 {
+    if (!sT)
+        return {};
+
     std::lock_guard<::siglock>  g(sT->lock);
     std::lock_guard<std::mutex> g_a(sG->attribute_lock);
 
@@ -838,6 +850,9 @@ void Caliper::memory_region_begin(
     const Variant*   extra_vals
 )
 {
+    if (!sT)
+        return;
+
     for (auto& channel : sG->active_channels)
         memory_region_begin(channel.body(), ptr, label, elem_size, ndim, dims, nextra, extra_attrs, extra_vals);
 }
@@ -845,6 +860,9 @@ void Caliper::memory_region_begin(
 /// Dispatch memory region annotation end across all active channels
 void Caliper::memory_region_end(const void* ptr)
 {
+    if (!sT)
+        return;
+
     for (auto& channel : sG->active_channels)
         memory_region_end(channel.body(), ptr);
 }
@@ -853,6 +871,9 @@ void Caliper::memory_region_end(const void* ptr)
 /// blackboard.
 std::vector<Entry> Caliper::get_globals()
 {
+    if (!sT)
+        return {};
+
     std::lock_guard<::siglock> g(sT->lock);
 
     return get_globals_from_blackboard(this, sG->process_blackboard, sG->process_blackboard_lock);
@@ -862,6 +883,9 @@ std::vector<Entry> Caliper::get_globals()
 /// and the process blackboard.
 std::vector<Entry> Caliper::get_globals(ChannelBody* chB)
 {
+    if (!sT)
+        return {};
+
     std::lock_guard<::siglock> g(sT->lock);
 
     std::vector<Entry> ret = get_globals_from_blackboard(this, sG->process_blackboard, sG->process_blackboard_lock);
@@ -876,6 +900,9 @@ std::vector<Entry> Caliper::get_globals(ChannelBody* chB)
 
 void Caliper::pull_context(SnapshotBuilder& rec)
 {
+    if (!sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     // Get thread blackboard data
@@ -888,6 +915,9 @@ void Caliper::pull_context(SnapshotBuilder& rec)
 
 void Caliper::pull_snapshot(ChannelBody* chB, SnapshotView trigger_info, SnapshotBuilder& rec)
 {
+    if (!sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     rec.append(trigger_info);
@@ -900,6 +930,9 @@ void Caliper::pull_snapshot(ChannelBody* chB, SnapshotView trigger_info, Snapsho
 
 void Caliper::push_snapshot(ChannelBody* chB, SnapshotView trigger_info)
 {
+    if (!sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     sT->snapshot.reset();
@@ -917,6 +950,9 @@ void Caliper::push_snapshot(ChannelBody* chB, SnapshotView trigger_info)
 
 void Caliper::push_snapshot_replace(ChannelBody* chB, SnapshotView trigger_info, const Entry& target)
 {
+    if (!sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     sT->snapshot.reset();
@@ -936,6 +972,9 @@ void Caliper::push_snapshot_replace(ChannelBody* chB, SnapshotView trigger_info,
 
 void Caliper::flush(ChannelBody* chB, SnapshotView flush_info, SnapshotFlushFn proc_fn)
 {
+    if (!sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     chB->events.pre_flush_evt(this, chB, flush_info);
@@ -959,6 +998,9 @@ void Caliper::flush(ChannelBody* chB, SnapshotView flush_info, SnapshotFlushFn p
 
 void Caliper::flush_and_write(ChannelBody* chB, SnapshotView input_flush_info)
 {
+    if (!sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     SnapshotRecord flush_info;
@@ -981,6 +1023,9 @@ void Caliper::flush_and_write(ChannelBody* chB, SnapshotView input_flush_info)
 
 void Caliper::clear(Channel* chn)
 {
+    if (!sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     chn->mP->events.clear_evt(this, chn);
@@ -990,7 +1035,7 @@ void Caliper::clear(Channel* chn)
 
 void Caliper::begin(const Attribute& attr, const Variant& data)
 {
-    if (sT->stack_error)
+    if (!sT || sT->stack_error)
         return;
 
     int prop  = attr.properties();
@@ -1026,7 +1071,7 @@ void Caliper::begin(const Attribute& attr, const Variant& data)
 
 void Caliper::end(const Attribute& attr)
 {
-    if (sT->stack_error)
+    if (!sT || sT->stack_error)
         return;
 
     int prop  = attr.properties();
@@ -1070,7 +1115,7 @@ void Caliper::end(const Attribute& attr)
 
 void Caliper::end_with_value_check(const Attribute& attr, const Variant& data)
 {
-    if (sT->stack_error)
+    if (!sT || sT->stack_error)
         return;
 
     int prop  = attr.properties();
@@ -1115,7 +1160,7 @@ void Caliper::end_with_value_check(const Attribute& attr, const Variant& data)
 
 void Caliper::set(const Attribute& attr, const Variant& data)
 {
-    if (sT->stack_error)
+    if (!sT || sT->stack_error)
         return;
 
     int prop  = attr.properties();
@@ -1143,6 +1188,9 @@ void Caliper::set(const Attribute& attr, const Variant& data)
 
 void Caliper::async_event(SnapshotView info)
 {
+    if (!sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     for (auto& channel : sG->active_channels)
@@ -1151,6 +1199,9 @@ void Caliper::async_event(SnapshotView info)
 
 void Caliper::begin(ChannelBody* chB, const Attribute& attr, const Variant& data)
 {
+    if (!sT)
+        return;
+
     int  prop       = attr.properties();
     bool run_events = !(prop & CALI_ATTR_SKIP_EVENTS);
 
@@ -1172,6 +1223,9 @@ void Caliper::begin(ChannelBody* chB, const Attribute& attr, const Variant& data
 
 void Caliper::end(ChannelBody* chB, const Attribute& attr)
 {
+    if (!sT)
+        return;
+
     int  prop       = attr.properties();
     bool run_events = !(prop & CALI_ATTR_SKIP_EVENTS);
 
@@ -1201,6 +1255,9 @@ void Caliper::end(ChannelBody* chB, const Attribute& attr)
 
 void Caliper::set(ChannelBody* chB, const Attribute& attr, const Variant& data)
 {
+    if (!sT)
+        return;
+
     int  prop       = attr.properties();
     bool run_events = !(prop & CALI_ATTR_SKIP_EVENTS);
 
@@ -1218,6 +1275,9 @@ void Caliper::set(ChannelBody* chB, const Attribute& attr, const Variant& data)
 
 Entry Caliper::get(const Attribute& attr)
 {
+    if (!sT)
+        return Entry();
+
     int prop  = attr.properties();
     int scope = prop & CALI_ATTR_SCOPE_MASK;
 
@@ -1237,6 +1297,9 @@ Entry Caliper::get(const Attribute& attr)
 
 Entry Caliper::get_blackboard_entry(const Attribute& attr)
 {
+    if (!sT)
+        return Entry();
+
     int prop  = attr.properties();
     int scope = prop & CALI_ATTR_SCOPE_MASK;
 
@@ -1256,6 +1319,9 @@ Entry Caliper::get_blackboard_entry(const Attribute& attr)
 
 Entry Caliper::get(ChannelBody* chB, const Attribute& attr)
 {
+    if (!sT)
+        return Entry();
+
     cali_id_t key = get_blackboard_key(attr.id(), attr.properties());
 
     std::lock_guard<::siglock> g(sT->lock);
@@ -1266,6 +1332,9 @@ Entry Caliper::get(ChannelBody* chB, const Attribute& attr)
 
 Entry Caliper::get_path_node()
 {
+    if (!sT)
+        return Entry();
+
     Entry e;
 
     {
@@ -1300,12 +1369,18 @@ void Caliper::memory_region_begin(
     const Variant*   extra_vals
 )
 {
+    if (!sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
     chB->events.track_mem_evt(this, chB, ptr, label, elem_size, ndims, dims, n, extra_attrs, extra_vals);
 }
 
 void Caliper::memory_region_end(ChannelBody* chB, const void* ptr)
 {
+    if (!sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
     chB->events.untrack_mem_evt(this, chB, ptr);
 }
@@ -1314,6 +1389,9 @@ void Caliper::memory_region_end(ChannelBody* chB, const void* ptr)
 
 void Caliper::make_record(size_t n, const Attribute attr[], const Variant value[], SnapshotBuilder& rec, Node* parent)
 {
+    if (!sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     Node* node = parent;
@@ -1330,30 +1408,45 @@ void Caliper::make_record(size_t n, const Attribute attr[], const Variant value[
 
 Node* Caliper::make_tree_entry(size_t n, const Node* nodelist[], Node* parent)
 {
+    if (!sT)
+        return nullptr;
+
     std::lock_guard<::siglock> g(sT->lock);
     return sT->tree.get_path(n, nodelist, parent);
 }
 
 Node* Caliper::make_tree_entry(const Attribute& attr, const Variant& data, Node* parent)
 {
+    if (!sT)
+        return nullptr;
+
     std::lock_guard<::siglock> g(sT->lock);
     return sT->tree.get_child(attr, data, parent);
 }
 
 Node* Caliper::make_tree_entry(const Attribute& attr, size_t n, const Variant data[], Node* parent)
 {
+    if (!sT)
+        return nullptr;
+
     std::lock_guard<::siglock> g(sT->lock);
     return sT->tree.get_path(attr, n, data, parent);
 }
 
 Node* Caliper::node(cali_id_t id) const
 {
+    if (!sT)
+        return nullptr;
+
     // no siglock necessary
     return sT->tree.node(id);
 }
 
 Variant Caliper::exchange(const Attribute& attr, const Variant& data)
 {
+    if (!sT)
+        return Variant();
+
     int prop  = attr.properties();
     int scope = prop & CALI_ATTR_SCOPE_MASK;
 
@@ -1380,6 +1473,9 @@ Variant Caliper::exchange(const Attribute& attr, const Variant& data)
 
 Channel Caliper::create_channel(const char* name, const RuntimeConfig& cfg)
 {
+    if (!sT)
+        return Channel();
+
     std::lock_guard<::siglock> g(sT->lock);
 
     Log(1).stream() << "Creating channel " << name << std::endl;
@@ -1422,6 +1518,9 @@ Channel Caliper::create_channel(const char* name, const RuntimeConfig& cfg)
 
 Channel Caliper::get_channel(cali_id_t id)
 {
+    if (!sT)
+        return Channel();
+
     auto it = std::find_if(sG->all_channels.begin(), sG->all_channels.end(), [id](const Channel& channel) {
         return id == channel.id();
     });
@@ -1431,11 +1530,17 @@ Channel Caliper::get_channel(cali_id_t id)
 
 std::vector<Channel> Caliper::get_all_channels()
 {
+    if (!sT)
+        return {};
+
     return sG->all_channels;
 }
 
 void Caliper::delete_channel(Channel& channel)
 {
+    if (!sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     channel.mP->events.pre_finish_evt(this, &channel);
@@ -1454,6 +1559,9 @@ void Caliper::delete_channel(Channel& channel)
 
 void Caliper::activate_channel(Channel& channel)
 {
+    if (!sT)
+        return;
+
     channel.mP->is_active = true;
 
     auto it = std::find(sG->active_channels.begin(), sG->active_channels.end(), channel);
@@ -1465,6 +1573,9 @@ void Caliper::activate_channel(Channel& channel)
 
 void Caliper::deactivate_channel(Channel& channel)
 {
+    if (!sT)
+        return;
+
     auto it = std::find(sG->active_channels.begin(), sG->active_channels.end(), channel);
     if (it != sG->active_channels.end())
         sG->active_channels.erase(it);
@@ -1483,6 +1594,9 @@ void Caliper::release_thread()
 
 void Caliper::finalize()
 {
+    if (!sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     Log(1).stream() << "Finalizing ... " << std::endl;
-- 
2.43.0


From b4f548f411078ba8c5f9805fa9c0fa2b79a6ab9d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:34:27 +0000
Subject: [PATCH 62/66] fix: initialize exactly once when several threads make
 the first Caliper call

---
 src/caliper/Caliper.cpp | 49 ++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 200ed3f..bc1b8b9 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -298,7 +298,7 @@ struct Caliper::ThreadData {
 struct Caliper::GlobalData {
     // --- static data
 
-    static volatile sig_atomic_t s_init_lock;
+    static std::atomic<int>      s_init_lock;
     static std::mutex            s_init_mutex;
 
     static const ConfigSet::Entry s_configdata[];
@@ -488,8 +488,8 @@ struct Caliper::GlobalData {
 
 // --- static member initialization
 
-volatile sig_atomic_t Caliper::GlobalData::s_init_lock = 1;
-std::mutex            Caliper::GlobalData::s_init_mutex;
+std::atomic<int> Caliper::GlobalData::s_init_lock { 1 };
+std::mutex       Caliper::GlobalData::s_init_mutex;
 
 Caliper::GlobalData::S_GObject                Caliper::GlobalData::gObj;
 thread_local Caliper::GlobalData::S_TLSObject Caliper::GlobalData::tObj;
@@ -1620,42 +1620,41 @@ Caliper::Caliper() : m_is_signal(false)
 
 Caliper Caliper::instance()
 {
-    GlobalData* gPtr = nullptr;
-    ThreadData* tPtr = nullptr;
+    int init_lock = GlobalData::s_init_lock;
 
-    if (GlobalData::s_init_lock == 0) {
-        gPtr = GlobalData::gObj.g_ptr;
-        tPtr = GlobalData::tObj.t_ptr;
-    } else {
-        if (GlobalData::s_init_lock == 2)
-            // Caliper had been initialized previously; we're past the static destructor
-            return Caliper(nullptr, nullptr, true);
+    if (init_lock == 2)
+        // Caliper had been initialized previously; we're past the static destructor
+        return Caliper(nullptr, nullptr, true);
 
+    //   Other threads must wait until the initializing thread is done. The
+    // initializing thread itself has its thread data set and can pass through.
+    if (init_lock == 1 && !GlobalData::tObj.t_ptr) {
         std::lock_guard<std::mutex> g(GlobalData::s_init_mutex);
 
-        Log::init();
-
-        GlobalData::gObj.g_ptr = nullptr;
-        GlobalData::tObj.t_ptr = nullptr;
+        // Check again, another thread may have initialized Caliper in the meantime
+        if (GlobalData::s_init_lock == 1) {
+            Log::init();
 
-        if (!GlobalData::gObj.g_ptr) {
-            tPtr = new ThreadData(true /* is_initial_thread */);
-            gPtr = new GlobalData(tPtr);
+            ThreadData* tPtr = new ThreadData(true /* is_initial_thread */);
+            GlobalData* gPtr = new GlobalData(tPtr);
 
             GlobalData::gObj.g_ptr = gPtr;
 
             gPtr->add_thread_data(tPtr);
             gPtr->init();
 
-            GlobalData::s_init_lock = 0;
-
-            // now we can use Caliper::instance()
+            // now we can use Caliper::instance() on this thread
             ::make_default_channel();
+
+            GlobalData::s_init_lock = 0;
         }
     }
 
+    GlobalData* gPtr = GlobalData::gObj.g_ptr;
+    ThreadData* tPtr = GlobalData::tObj.t_ptr;
+
     if (!tPtr) {
-        tPtr = gPtr->add_thread_data(new ThreadData(false /* is_initial_thread */));
+        tPtr = gPtr->add_thread_data(new ThreadData);
         Caliper c(gPtr, tPtr, false);
 
         for (auto& channel : gPtr->all_channels)
@@ -1667,6 +1666,10 @@ Caliper Caliper::instance()
 
 Caliper Caliper::sigsafe_instance()
 {
+    // not initialized yet, or past the static destructor
+    if (GlobalData::s_init_lock != 0)
+        return Caliper(nullptr, nullptr, true);
+
     return Caliper(GlobalData::gObj.g_ptr, GlobalData::tObj.t_ptr, true);
 }
 
-- 
2.43.0


From b73a859cb8a1849e4aede0362fd717f00a1654b5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:34:29 +0000
Subject: [PATCH 63/66] fix: finalize on the thread that exits the program, not
 when the first-using thread ends

---
 src/caliper/Caliper.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index bc1b8b9..8d3d2b4 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -32,6 +32,7 @@
 #include <map>
 #include <memory>
 #include <mutex>
+#include <thread>
 #include <vector>
 
 #define SNAP_MAX 120
@@ -253,12 +254,9 @@ struct Caliper::ThreadData {
     // version of the last process blackboard snapshot
     int process_bb_count;
 
-    bool is_initial_thread;
     bool stack_error;
 
-    ThreadData(bool initial_thread = false)
-        : process_bb_count(-1), is_initial_thread(initial_thread), stack_error(false)
-    {}
+    ThreadData() : process_bb_count(-1), stack_error(false) {}
 
     ~ThreadData()
     {
@@ -300,6 +298,7 @@ struct Caliper::GlobalData {
 
     static std::atomic<int>      s_init_lock;
     static std::mutex            s_init_mutex;
+    static const std::thread::id s_main_thread_id;
 
     static const ConfigSet::Entry s_configdata[];
 
@@ -430,8 +429,10 @@ struct Caliper::GlobalData {
     // thread-local data. This is for lookup only, GlobalData owns all
     // ThreadData objects. The object also notifies us of thread destruction
     // via its destructor.
-    //   In addition, the destructor for the initial thread object serves as
+    //   In addition, the destructor for the main thread's object serves as
     // finalization trigger on program exit, together with S_GObject below.
+    // Note that the initial thread, i.e. the first one to use Caliper, is not
+    // necessarily the main thread and can end before the program does.
     // The destruction order for thread-local and regular static objects is
     // undefined, so whoever is destroyed first triggers finalization.
     struct S_TLSObject {
@@ -445,7 +446,7 @@ struct Caliper::GlobalData {
             if (t_ptr && s_init_lock == 0) {
                 Caliper c(gObj.g_ptr, t_ptr, false);
 
-                if (t_ptr->is_initial_thread) {
+                if (std::this_thread::get_id() == s_main_thread_id) {
                     c.finalize();
                     delete gObj.g_ptr;
                 } else {
@@ -472,6 +473,10 @@ struct Caliper::GlobalData {
         {
             // Only use if we're still active
             if (g_ptr && s_init_lock == 0) {
+                // The thread that exits the program might not have thread data: use the initial thread's
+                if (!tObj.t_ptr)
+                    tObj.t_ptr = g_ptr->thread_data.front();
+
                 Caliper c(g_ptr, tObj.t_ptr, false);
 
                 c.finalize();
@@ -491,6 +496,9 @@ struct Caliper::GlobalData {
 std::atomic<int> Caliper::GlobalData::s_init_lock { 1 };
 std::mutex       Caliper::GlobalData::s_init_mutex;
 
+// Static initialization runs on the main thread
+const std::thread::id Caliper::GlobalData::s_main_thread_id = std::this_thread::get_id();
+
 Caliper::GlobalData::S_GObject                Caliper::GlobalData::gObj;
 thread_local Caliper::GlobalData::S_TLSObject Caliper::GlobalData::tObj;
 
@@ -1635,7 +1643,7 @@ Caliper Caliper::instance()
         if (GlobalData::s_init_lock == 1) {
             Log::init();
 
-            ThreadData* tPtr = new ThreadData(true /* is_initial_thread */);
+            ThreadData* tPtr = new ThreadData;
             GlobalData* gPtr = new GlobalData(tPtr);
 
             GlobalData::gObj.g_ptr = gPtr;
-- 
2.43.0


From ebf0e2027cac37c7bce6d5204800f070662f2d4e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:52:13 +0000
Subject: [PATCH 64/66] fix: cali_channel_get() does not access the channel
 list when locked out in a signal handler

---
 src/caliper/cali.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/caliper/cali.cpp b/src/caliper/cali.cpp
index cd1b8b4..d98fcb6 100644
--- a/src/caliper/cali.cpp
+++ b/src/caliper/cali.cpp
@@ -340,10 +340,14 @@ cali_variant_t cali_get(cali_id_t attr_id)
 
 cali_variant_t cali_channel_get(cali_id_t chn_id, cali_id_t attr_id)
 {
-    Caliper c       = Caliper::sigsafe_instance();
+    Caliper c = Caliper::sigsafe_instance();
+
+    if (!c)
+        return cali_make_empty_variant();
+
     Channel channel = c.get_channel(chn_id);
 
-    if (!c || !channel)
+    if (!channel)
         return cali_make_empty_variant();
 
     return c.get(channel.body(), c.get_attribute(attr_id)).value().c_variant();
-- 
2.43.0


From ed8b3ce6217711eb76e9f08b2e5ba5fa8e7615da Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:27:58 +0000
Subject: [PATCH 65/66] fix: settings of several configuration files and
 repeated profiles are combined, the last definition is taken

---
 src/common/RuntimeConfig.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/common/RuntimeConfig.cpp b/src/common/RuntimeConfig.cpp
index ba90810..522b646 100644
--- a/src/common/RuntimeConfig.cpp
+++ b/src/common/RuntimeConfig.cpp
@@ -164,8 +164,7 @@ struct RuntimeConfig::RuntimeConfigImpl {
         // * Other lines are parsed as NAME=VALUE, or ignored if no '=' is found
         //
 
-        ::config_profile_t current_profile;
-        std::string        current_profile_name { "default" };
+        std::string current_profile_name { "default" };
 
         for (std::string line; std::getline(in, line);) {
             if (line.length() < 1)
@@ -177,10 +176,6 @@ struct RuntimeConfig::RuntimeConfigImpl {
                 std::string::size_type e = line.find_first_of(']');
 
                 if (b != std::string::npos && e != std::string::npos && b + 1 < e) {
-                    if (current_profile.size() > 0)
-                        m_config_profiles[current_profile_name].insert(current_profile.begin(), current_profile.end());
-
-                    current_profile.clear();
                     current_profile_name = line.substr(b + 1, e - b - 1);
                 } else {
                     continue;
@@ -191,12 +186,9 @@ struct RuntimeConfig::RuntimeConfigImpl {
 
             if (s > 0 && s < line.size()) {
                 std::istringstream is(line.substr(s + 1));
-                current_profile[line.substr(0, s)] = util::read_word(is, "");
+                m_config_profiles[current_profile_name][line.substr(0, s)] = util::read_word(is, "");
             }
         }
-
-        if (current_profile.size() > 0)
-            m_config_profiles[current_profile_name] = current_profile;
     }
 
     void read_config_files(const std::vector<std::string>& filenames)
-- 
2.43.0


From deae2272cfb3d5378643a70e57a9fe9624e85470 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:38:19 +0000
Subject: [PATCH 66/66] fix: a malformed field width in a format string is
 ignored instead of throwing an exception

---
 src/common/SnapshotTextFormatter.cpp | 3 ++-
 src/reader/UserFormatter.cpp         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/SnapshotTextFormatter.cpp b/src/common/SnapshotTextFormatter.cpp
index 4a1d427..4b6bd44 100644
--- a/src/common/SnapshotTextFormatter.cpp
+++ b/src/common/SnapshotTextFormatter.cpp
@@ -5,6 +5,7 @@
 /// \brief SnapshotTextFormatter implementation
 
 #include "SnapshotTextFormatter.h"
+#include "StringConverter.h"
 
 #include "caliper/common/CaliperMetadataAccessInterface.h"
 #include "caliper/common/Node.h"
@@ -70,7 +71,7 @@ struct cali::SnapshotTextFormatter::SnapshotTextFormatterImpl {
 
                 if (wfbegin >= 0 && wfend > wfbegin + 1) {
                     // we have a width specification field
-                    field.width = std::stoi(field_strings[wfbegin + 1]);
+                    field.width = StringConverter(field_strings[wfbegin + 1]).to_int();
 
                     if (wfbegin > 0)
                         apos = 0;
diff --git a/src/reader/UserFormatter.cpp b/src/reader/UserFormatter.cpp
index 1e65784..1bca63c 100644
--- a/src/reader/UserFormatter.cpp
+++ b/src/reader/UserFormatter.cpp
@@ -13,6 +13,7 @@
 #include "caliper/common/Node.h"
 #include "caliper/common/OutputStream.h"
 
+#include "../common/StringConverter.h"
 #include "../common/util/split.hpp"
 
 #include <algorithm>
@@ -81,7 +82,7 @@ struct UserFormatter::FormatImpl {
 
                 if (wfbegin >= 0 && wfend > wfbegin + 1) {
                     // width field specified
-                    field.width = stoi(field_strings[wfbegin + 1]);
+                    field.width = StringConverter(field_strings[wfbegin + 1]).to_int();
 
                     if (wfbegin > 0)
                         apos = 0;
-- 
2.43.0

